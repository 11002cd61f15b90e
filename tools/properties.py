"""The properties: text of properties.jsonl, rules of props.py, lines of the manifest.
tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
P = "src/core/trainingset/xmmPhrase"
T = "src/core/trainingset/xmmTrainingSet"
A = "src/core/common/xmmAttribute"
J = "src/core/common/xmmJson"
G = "src/core/distributions/xmmGaussianDistribution"
MX = "src/core/common/xmmMatrix.hpp"
MO = "src/core/model/xmmModel.hpp"
MC = "src/core/model/xmmModelConfiguration.hpp"
SP = "src/core/model/xmmModelSharedParameters"
SC = "src/core/model/xmmModelSingleClass"
GM = "src/models/gmm/xmmGmm"
GP = "src/models/gmm/xmmGmmParameters"
GS = "src/models/gmm/xmmGmmSingleClass"
HH = "src/models/hmm/xmmHierarchicalHmm"
HP = "src/models/hmm/xmmHmmParameters"
HS = "src/models/hmm/xmmHmmSingleClass"
KM = "src/models/kmeans/xmmKMeans"
CB = "src/core/common/xmmCircularbuffer.hpp"
EV = "src/core/common/xmmEvents.hpp"


def b(x):
    return [x + ".hpp", x + ".cpp"]


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why, anchors=a)


PROPERTIES = [
    prop("C01", "A phrase holds exactly the frames that were recorded",
         "After any sequence of recording, clearing, dimension and label changes, a phrase reads back, frame by frame "
         "and value by value, exactly the data recorded for each modality it has, up to that modality's own length. Its length "
         "(for a bimodal phrase, the number of complete frames), its emptiness, its dimensions and its per-frame pointers agree "
         "with what was recorded, and an ill-sized observation, an operation for the other memory or modality mode, or an index past the end is "
         "refused with an exception and changes nothing.",
         ["inputs", "histories"],
         "For all modality settings, dimensions from 1 up (2 for bimodal phrases), and finite interleavings of record / record_input / record_output / "
         "clear / clearInput / clearOutput / dimension changes, including recordings that cross every internal growth step.",
         "The tests record one short phrase per mode with fixed data; growth of the buffers, interleaved modalities and "
         "clearing are never combined.",
         b(P), [("growth of the frame buffers", P + ".cpp"), ("length of the modalities and isEmpty", P + ".cpp"),
                ("checked element access", P + ".cpp")],
         [("data_", "frames of each modality", P + ".hpp"), ("max_length_", "allocated frames", P + ".hpp")],
         ["size()", "getValue()", "getPointer()", "empty()", "inputSize()/outputSize()"]),
    prop("C02", "Phrases never leak, double-free or read freed memory, shared or owned",
         "A phrase over caller-owned memory reads the caller's buffers as they are at that moment, for exactly the length connected, and never "
         "writes or frees them. A phrase with its own memory, and every copy or assignment of it, owns separate storage that is released exactly "
         "once, so changing or destroying one phrase never changes what another reads. A copy of a shared-memory phrase reads the same caller buffers.",
         ["inputs", "histories"],
         "For all histories of construct / connect / disconnect / copy / assign (also to itself) / dimension change / destroy over own and "
         "shared memory, one or two modalities.",
         "No test copies a shared-memory phrase, assigns over a non-empty phrase or changes dimensions after recording; leaks are invisible to assertions.",
         b(P), [("ownership flag of the data arrays", P + ".hpp"), ("copy constructor and assignment", P + ".cpp"),
                ("connect/disconnect", P + ".cpp")],
         None, ["heap accounting of the sanitizer", "caller's buffers", "getValue() of every live phrase"]),
    prop("C03", "A training set, its labels and its class subsets always agree",
         "After any sequence of additions, removals, copies, clears, relabellings and edits of phrases through the set, the "
         "set of labels is exactly the set of labels of its phrases, and each per-class subset contains exactly the "
         "phrases of that class, with the same indices, dimensions and column names as the parent set. A copied set is independent of "
         "its source, and no phrase or set ever notifies one that has been destroyed.",
         ["histories", "inputs"],
         "For all histories of addPhrase / removePhrase / removePhrasesOfClass / clear / copy / assign / destroy and label or data "
         "edits through the set or through phrases it returned, over several sets alive together.",
         "The tests build one set, once; relabelling through a returned phrase, copies and lifetimes of the listeners are not exercised.",
         b(T) + [A + ".hpp", P + ".cpp", EV],
         [("update after each phrase event", T + ".cpp"), ("event generator / listener registration", EV)],
         [("labels", "set of classes", T + ".hpp"), ("sub_training_sets_", "per-class views", T + ".hpp")],
         ["labels()", "getPhrasesOfClass()", "begin()/end()", "dimension and column_names of subsets"]),
    prop("C04", "Statistics and normalisation of training sets are exact",
         "The mean, standard deviation and range reported for a phrase or a training set equal those of its recorded data, dimension "
         "by dimension and over both modalities. Rescaling or normalising with given or computed statistics maps every recorded value "
         "(and only those) by the corresponding affine map, for own-memory phrases, without disturbing other dimensions or modalities.",
         ["inputs"],
         "For all unimodal and bimodal training sets with several phrases of unequal length, constant columns included, and all "
         "offset and gain vectors.",
         "No test calls the statistics or the rescaling functions at all.",
         b(T) + b(P), [("mean/standardDeviation/minmax", P + ".cpp"), ("rescale/normalize", T + ".cpp")],
         None, ["mean()", "standardDeviation()", "minmax()", "getValue() after rescale()/normalize()"]),
    prop("C05", "Phrases and training sets survive a JSON round trip unchanged",
         "Writing any phrase or training set to JSON and reading the text or file back into an object of any prior content yields the same "
         "dimensions, modality mode, column names, labels, phrase indices and recorded values of every complete frame, for own and shared memory sources. Reading replaces the "
         "previous content completely, and writing again gives the same document.",
         ["inputs", "histories"],
         "For all phrases and sets (unimodal/bimodal, own/shared memory source, empty, long, extreme finite values, non-ASCII labels and column names) and all prior contents of the target.",
         "The JSON tests read one fixed phrase and one fixed set into fresh objects, and compare values with a tolerance.",
         b(P) + b(T) + b(J), [("toJson/fromJson of phrases", P + ".cpp"), ("toJson/fromJson of sets", T + ".cpp"),
                               ("vector helpers", J + ".hpp")],
         None, ["toJson()", "fromJson()", "getValue()"]),
    prop("C06", "Models survive a JSON round trip and then behave identically",
         "Writing any Gaussian, configuration, shared parameters, GMM or HMM model (or k-means configuration) to JSON and reading the text or file into an object of any prior "
         "configuration restores every parameter, class, component, state, transition and configuration value. A restored model then filters any "
         "input stream to the same results as the original, and writes the same document.",
         ["inputs", "configurations", "histories"],
         "For all trained and untrained models over the product of modality, covariance mode, transition mode, hierarchical mode, "
         "regression estimator, class-specific configurations, prior content of the target, and all input streams.",
         "The JSON tests use default configurations, fresh targets, compare a few parameters, and never filter with a restored model.",
         [MO, MC] + b(G) + b(SP) + b(SC) + b(GM) + b(GP) + b(GS) + b(HH) + b(HP) + b(HS) + b(J),
         [("toJson/fromJson of each class", "src"), ("derived variables rebuilt after reading", GS + ".cpp"),
          ("json2Attribute", J + ".hpp")],
         None, ["toJson()", "fromJson()", "filter() of original and restored model"]),
    prop("C07", "Malformed JSON is refused, and never leaves a corrupt object",
         "Reading a damaged or missing file, or a JSON document with a missing, mistyped, ill-sized or out-of-range member into any phrase, set, Gaussian, configuration or model "
         "either throws an exception and (unless memory ran out) leaves the object as it was, or yields an object whose dimensions and contents agree with one another. In both cases "
         "no memory is accessed out of bounds or leaked, and the object can be used, re-read and destroyed normally afterwards.",
         ["inputs", "fault_sequences"],
         "For all structure-aware mutations of valid documents of every readable type (removal, retyping, numbers of any size and sign, "
         "longer and shorter arrays, swapped members, parts of other documents), damaged text, and ill-sized or mistyped arrays given to the array helpers, applied to targets of any content.",
         "Nothing in the tests reads a malformed document.",
         b(J) + b(P) + b(T) + b(G) + b(SP) + b(SC) + b(GS) + b(HS) + [MO, MC],
         [("JsonException and checks of types and sizes", J + ".hpp"), ("reading into a temporary, then assigning", P + ".cpp")],
         None, ["exception thrown by fromJson()", "sanitizer reports", "toJson() and use of the target afterwards"]),
    prop("C08", "Gaussian likelihoods and regressions match their definition",
         "For every Gaussian with a positive-definite covariance, full or diagonal, the likelihood of an observation, its input "
         "and bimodal variants and the conditional mean and variance of the output modality equal the textbook expressions, with "
         "inverse and determinant consistent with the current covariance after every change of mode, dimension, offset or "
         "content. Matrix products, transposes, sums, inverses and pseudo-inverses equal exact linear algebra up to rounding, and ill-sized operands are refused with an exception. "
         "Copied, shared and resized matrices own or share exactly the data they should.",
         ["inputs", "configurations"],
         "For all dimensions up to 8, condition numbers up to 1e6, both covariance modes and all splits between modalities; "
         "matrices up to 9 by 9 including rank-deficient ones.",
         "The tests evaluate a handful of likelihoods on one distribution.",
         b(G) + [MX], [("likelihood and regression", G + ".cpp"), ("updateInverseCovariance and updateOutputCovariance", G + ".cpp"),
                       ("Gauss-Jordan inverse", MX)],
         None, ["likelihood()", "likelihood_input()", "likelihood_bimodal()", "regression()", "Matrix results"]),
    prop("C09", "Covariance ellipses and covariances convert into one another",
         "The ellipse of a Gaussian (or of a 2x2 covariance) over any two dimensions is centred on the mean and has the axes and "
         "orientation of the covariance's eigenvectors at the given mass, and it is never NaN for a valid covariance. Setting a Gaussian "
         "from an ellipse and reading the ellipse back returns the same ellipse.",
         ["inputs"],
         "For all positive-definite 2x2 covariances, axis-aligned, isotropic and near-degenerate ones included, and all pairs of dimensions.",
         "No test calls the ellipse functions.",
         b(G), [("toEllipse/fromEllipse", G + ".cpp")], None, ["toEllipse()", "fromEllipse()", "covariance2ellipse()"]),
    prop("C10", "Trained models are valid and are what EM prescribes",
         "After training, every class has weights, priors and transition rows that are non-negative and sum to one (up to the fixed loop from the last to the first state when decoding is not hierarchical), finite means, "
         "and symmetric covariances at least as large as the configured regularisation. The parameters equal those of the textbook EM (GMM) or "
         "Baum-Welch (HMM) estimation on that class's phrases from the library's initialisation, and iterations stop exactly where the convergence criterion says.",
         ["inputs", "configurations"],
         "For all training sets and configurations (components or states, regularisation, covariance mode, topology, modalities, "
         "convergence criteria), any number of phrases of unequal length.",
         "The tests compare one recorded data set's parameters with stored numbers under a loose tolerance.",
         [GS + ".cpp", HS + ".cpp", SC + ".cpp", SC + ".hpp", KM + ".cpp", G + ".cpp"],
         [("EM update", GS + ".cpp"), ("Baum-Welch update", HS + ".cpp"), ("convergence criterion", SC + ".cpp"),
          ("regularisation", GS + ".cpp")],
         [("mixture_coeffs / transition / prior", "stochastic parameters", HS + ".hpp")],
         ["components, states, transition, prior after train()", "training events (iterations, likelihood)"]),
    prop("C11", "GMM filtering reports true likelihoods and recognises the likeliest class",
         "At every frame, each class's instantaneous likelihood is its mixture density for the observation (its input part for bimodal "
         "models), its smoothed value is the mean of the log-likelihoods over exactly the configured window, and the normalised values "
         "are those likelihoods divided by their sums over all classes. The responsibilities of the components sum to one, and the likeliest class is the "
         "label with the greatest smoothed likelihood.",
         ["inputs", "histories", "configurations"],
         "For all trained GMMs, input streams (far outliers included), window lengths and reset points.",
         "The tests check a few smoothed values on one stored stream.",
         b(GM) + b(GS) + b(SC) + [CB, "src/core/model/xmmModelResults.hpp"],
         [("obsProb and likelihood", GS + ".cpp"), ("smoothing window", SC + ".cpp"), ("normalisation and likeliest", GM + ".cpp")],
         None, ["results of the model and of every class after each filter()"]),
    prop("C12", "HMM filtering is the forward algorithm, within and across gesture classes",
         "At every frame, the state probabilities, instantaneous and smoothed likelihoods of each class equal the normalised forward recursion of the model's "
         "own parameters, for ergodic and left-right topologies. In hierarchical mode, the joint forward variables follow the two-level recursion with exit "
         "probabilities and class transitions, and the progress of each class is the time centroid of its state window, between 0 and 1. The likeliest "
         "class and all normalised likelihoods follow from these values, and posteriors sum to one.",
         ["inputs", "histories", "configurations"],
         "For all trained HMMs (1 to many states, any components, both topologies, both hierarchical modes), input streams and resets.",
         "The tests check a few smoothed values on one stored stream; nothing checks forward variables, progress or the ergodic mode.",
         b(HH) + b(HS) + ["src/models/hmm/xmmHmmResults.hpp"],
         [("forward_init / forward_update", HS + ".cpp"), ("hierarchical forward recursion", HH + ".cpp"),
          ("windowed states and progress", HS + ".cpp")],
         [("alpha", "forward variable", HS + ".hpp"), ("frontier_v1_/v2_", "hierarchical forward sums", HH + ".hpp")],
         ["results, alpha, progress of every class after each filter()"]),
    prop("C13", "Regression outputs are the estimators the configuration names",
         "At every frame, the output values and covariance of each class of a bimodal GMM or HMM are the conditional expectation and "
         "covariance of its components or states, weighted as its estimator (full, windowed, likeliest) prescribes. The output of the model is "
         "that of the likeliest class, or the likelihood-weighted mixture of all classes, as configured; all are finite.",
         ["inputs", "configurations"],
         "For all bimodal models, covariance modes, regression estimators, multi-class estimators and input streams.",
         "The tests check one regression with default estimators.",
         b(GM) + b(GS) + b(HH) + b(HS) + b(G), [("class regression", HS + ".cpp"), ("mixture of classes", HH + ".cpp"), ("conditional density", G + ".cpp")],
         None, ["output_values", "output_covariance"]),
    prop("C14", "Filtering is a function of the model and of the frames since reset",
         "Resetting a trained model and filtering the same frames gives bit-identical results, whatever was filtered before, on whichever copy, "
         "and whichever observers read the results in between. Filtering and resetting never change trained parameters, and training again with the same data and configuration reproduces the same model.",
         ["histories", "inputs"],
         "For all trained GMM and HMM models, all input streams, and all positions of resets, and retrainings.",
         "The tests filter each model once.",
         [GM + ".cpp", HH + ".cpp", GS + ".cpp", HS + ".cpp", SC + ".cpp", CB],
         [("reset of results and forward variables", HH + ".cpp"), ("clearing of the smoothing window", SC + ".cpp")],
         None, ["results after reset()", "toJson() before and after filtering"]),
    prop("C15", "Copies of models are independent of their source and survive it",
         "A copied or assigned model, configuration or class has the same parameters as its source and filters identically from a reset. Afterwards, changing "
         "the configuration, retraining, clearing, removing classes from, filtering or destroying either one has no effect on the other, and nothing is leaked or used after it is freed.",
         ["histories", "configurations"],
         "For all models (trained or not, class-specific configurations, listeners), all orders of copy, assignment (also to itself), "
         "mutation and destruction.",
         "No test copies a model.",
         [MO, MC] + b(SC) + b(SP) + b(GM) + b(HH) + b(KM) + [EV],
         [("copy constructor and assignment of models", MO), ("shared parameters held by pointer", SP + ".hpp")],
         None, ["toJson() and filter() of each copy", "sanitizer reports"]),
    prop("C16", "Training events follow every class to its single end, then one completion",
         "For each training, listeners see for every trained class its iterations 1, 2, 3... with non-decreasing progress values within [0,1], and then exactly one "
         "end (done, error or cancel), and after the ends of all classes exactly one overall completion. At completion the model reports that it "
         "is not training and holds exactly the classes whose training succeeded (and those it had and did not retrain); events of different classes never overlap within a listener's call.",
         ["schedules", "histories", "configurations"],
         "For all modes of multithreading, numbers of classes, training data (classes whose training fails included), and schedules.",
         "The multithreading test waits for completion and looks at the final state only, and is itself excluded as racy.",
         [MO, EV] + b(SC), [("notification under the event mutex", SC + ".cpp"), ("completion after joining", MO)],
         None, ["recorded training events", "training()", "size() and labels at completion"]),
    prop("C17", "Training, observing and cancelling are free of data races",
         "Training in parallel or in the background performs no unsynchronised conflicting memory access, while other threads poll training state, receive events, "
         "cancel, or train another model with the same data, and while train, cancel, clear, remove and destroy wait for the training to end. Filtering, saving or copying a training model is refused with an exception, without a race.",
         ["schedules"],
         "For all schedules of class-training threads, joining threads and user threads that poll, cancel, reset, filter, save, copy or destroy.",
         "A race needs a particular interleaving; the only multithreaded test is excluded from the suite for being racy.",
         [MO] + b(SC) + [EV], [("event mutex and atomic flags", SC + ".hpp"), ("joining thread", MO)],
         [("is_training_ / cancel_required_", "flags shared between threads", SC + ".hpp")],
         ["ThreadSanitizer reports"]),
    prop("C18", "Sequential, parallel and background training give the same model",
         "Training the same data with the same configuration sequentially, in parallel or in the background (once complete) gives identical "
         "models, identical classes and identical sets of events per class.",
         ["schedules", "configurations", "inputs"],
         "For all training sets and configurations of GMM and HMM, one to many classes, including retraining of one class only.",
         "No test compares modes.",
         [MO, SC + ".cpp"], [("three multithreading modes", MO)], None, ["toJson() of the three models", "recorded events"]),
    prop("C19", "Training can be cancelled, restarted or destroyed at any moment",
         "Cancelling, re-training, clearing, removing a class or destroying a model at any point of a background training, or cancelling from other threads a training that "
         "blocks its own, neither crashes, deadlocks nor leaks; cancel returns with no training thread (of the class it names, or of any) still running. Afterwards the model is not training, each remaining class is fully trained, the "
         "listener has had its completion, and the model can be trained again with the normal result.",
         ["schedules", "histories"],
         "For all points of a training at which cancel / train / clear / removeClass / destroy / reset / filter are called, any number of times, from the user thread or by several threads.",
         "Nothing in the tests cancels or interrupts a training.",
         [MO] + b(SC), [("cancelTraining", MO), ("cancel_required_ polled in the EM loop", SC + ".cpp")], None,
         ["return of cancelTraining()", "training()", "training events", "model after a new training"]),
    prop("C20", "Parameters keep their limits and announce their changes",
         "A parameter only ever holds values within its limits: a value outside is refused with an exception and leaves the parameter and its observers "
         "untouched, also for vectors and single vector elements. Each accepted assignment notifies the parameter's own listener once and raises its "
         "changed flag; copies carry the value but not the source's listener, and configuration setters that depend on one another (dimension, input dimension, column names, bimodality) stay consistent.",
         ["inputs", "histories"],
         "For all parameter types, limits and values (boundaries, negatives, NaN included) and sequences of assignment, element assignment, copy and limit changes.",
         "The tests set valid values only.",
         b(A) + b(SP) + b(GP) + b(HP), [("checkLimits", A + ".cpp"), ("set / notification", A + ".hpp"), ("dependent attributes", SP + ".cpp")],
         None, ["get()", "exceptions", "calls of the listener", "changed flag"]),
    prop("C21", "K-means is Lloyd's algorithm and filters to the nearest centre",
         "After training, the centres equal those of Lloyd's iterations (nearest centre, then mean of its members) from the configured "
         "initialisation with the configured stopping rule, and with more iterations the distortion never increases. Filtering reports the true Euclidean distance to each centre and the index of the nearest.",
         ["inputs", "configurations"],
         "For all training sets (several phrases, bimodal included), cluster counts, initialisations and stopping rules; observations of any kind.",
         "No test covers k-means.",
         b(KM) + [KM + "Parameters.hpp", KM + "Results.hpp"], [("train and initialisation", KM + ".cpp"), ("filter", KM + ".cpp")],
         None, ["centers", "results.distances", "results.likeliest"]),
    prop("C22", "The circular buffer holds exactly the last pushed values",
         "A circular buffer of any length and number of channels holds exactly the most recent min(pushes, length) values since its last clear, for "
         "indexing, size, fullness and, channel by channel, mean. Clearing and resizing leave it usable at its new length, "
         "holding nothing but values pushed since the clear, and all those pushed since the resize that fit.",
         ["histories", "inputs"],
         "For all lengths, channel counts and sequences of push, clear and resize.",
         "The buffer has no test of its own; filters in the tests use one fixed window.",
         [CB], [("write index and full flag", CB)], None, ["size()", "operator()", "mean()", "size_t capacity"]),
    prop("C23", "Every event reaches every registered listener exactly once",
         "An event sent by an event generator is delivered exactly once, with the contents it was sent with, to every listener registered at that moment and to no other, "
         "whatever listeners were added (also twice), removed or cleared before. A copied generator or model has the listeners of its source at that moment and is independent afterwards. "
         "A model announces each of its training events so, and its listeners stay registered through training, clearing, resetting and reading JSON.",
         ["histories"],
         "For all histories of adding, removing, clearing, copying and notifying, for several generators and listeners.",
         "The tests register one listener per object and never remove one.",
         [EV, MO], [("map of callbacks", EV), ("events of the model", MO)], None,
         ["calls of the listeners", "events received"]),
    prop("C24", "Each class is trained and filtered with its own configuration",
         "A class given its own parameters is trained and filtered with those, all other classes with the defaults current at training time, and "
         "every class and the model report the dimensions, modalities and column names of the training set. Changing the defaults or another class's parameters "
         "never affects a class already configured, and resetting the class-specific parameters returns it to the defaults.",
         ["configurations", "histories"],
         "For all assignments of default and class-specific parameters, orders of configuration and training, and both model types.",
         "No test uses class-specific configurations.",
         [MC, MO] + b(SP) + b(GP) + b(HP), [("lookup of class-specific parameters", MC), ("configuration passed to classes before training", MO)],
         None, ["configuration[label]", "parameters of trained classes"]),
    prop("C25", "Training or removing one class leaves all other classes as they were",
         "Training a single class, adding a class, or removing a class leaves the parameters of every other class bit-identical, and gives the trained class exactly the model "
         "that training the whole set would. The model's classes, labels, class indices and hierarchical priors, transitions and results then "
         "cover exactly the remaining classes, and filtering still works.",
         ["histories", "inputs"],
         "For all sequences of train(set), train(set, label), addClass / removeClass and clear on GMM and hierarchical HMM models.",
         "The tests train whole sets only.",
         [MO] + b(HH) + b(GM), [("train of one label", MO), ("removeClass, updateTransitionParameters", HH + ".cpp")], None,
         ["toJson() of every class", "prior / transition / exit_transition of the hierarchical model", "size(), labels"]),
]
