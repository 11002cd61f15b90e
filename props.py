# What each check runs: harness, builds, and how its evidence is described.
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=sched_yield"]

PROPS = {
    "C01": dict(harness="phrase", configs=["asan"],
                rule="one execution = one random history of operations on phrases, each step compared with an independent model of the recorded frames; distinct = different histories (hash of the logged operations)"),
    "C02": dict(harness="phrase", configs=["asan"],
                rule="one execution = one random history over several own- and shared-memory phrases, copies and assignments, re-run to compare live heap bytes; distinct = different histories"),
    "C03": dict(harness="trainingset", configs=["asan"],
                rule="one execution = one random history over several training sets and their phrases, with labels and class subsets compared with a model after every step; distinct = different histories"),
    "C04": dict(harness="trainingset", configs=["asan"],
                rule="one execution = one random training set whose statistics and rescaled data are compared with long double references; distinct = different sets and gains"),
    "C08": dict(harness="gauss", configs=["asan"],
                rule="one execution = one random Gaussian (or matrix expression) compared with long double linear algebra through several changes of mode and content; distinct = different configurations and data"),
    "C09": dict(harness="gauss", configs=["asan"],
                rule="one execution = one random covariance and pair of dimensions, converted to an ellipse and back; distinct = different covariances"),
    "C11": dict(harness="filter", configs=["asan"],
                rule="one execution = one random trained GMM filtering several random streams, every likelihood, responsibility and result compared with a long double reference at every frame; distinct = different data, configurations and streams"),
    "C12": dict(harness="filter", configs=["asan"],
                rule="one execution = one random trained (or edited) HMM filtering several random streams, forward variables, likelihoods, progress and results compared with an independent forward recursion at every frame; distinct = different data, configurations and streams"),
    "C13": dict(harness="filter", configs=["asan"],
                rule="one execution = one random bimodal GMM or HMM filtering random input streams, outputs of classes and model compared with a long double reference at every frame; distinct = different data, configurations and streams"),
    "C14": dict(harness="filter", configs=["asan"],
                rule="one execution = one random model replaying a random stream after other streams, resets, copies and retrainings, all results compared bit for bit; distinct = different data, configurations and streams"),
    "C20": dict(harness="misc", configs=["asan"],
                rule="one execution = one random history over several parameters of one type, values, changed flags and listener calls compared with a model after every step; distinct = different histories"),
    "C22": dict(harness="misc", configs=["asan"],
                rule="one execution = one random history of one circular buffer, content compared with a model after every step; distinct = different histories"),
    "C23": dict(harness="events", configs=["asan"],
                rule="one execution = one random history of listeners added to and removed from event generators or models, every delivery compared with a model; distinct = different histories"),
    "C10": dict(harness="train", configs=["asan"],
                rule="one execution = one random training set and configuration trained, the model checked for validity, its convergence against the recorded events, and (60% of the cases) its parameters against an independent EM or Baum-Welch; distinct = different data and configurations"),
    "C24": dict(harness="train", configs=["asan"],
                rule="one execution = one random history of default and class-specific parameters and trainings, every trained class compared with a model that has these parameters as defaults; distinct = different histories"),
    "C25": dict(harness="train", configs=["asan"],
                rule="one execution = one random history of whole-set trainings, single-class trainings and removals over three sets, every class compared bit for bit after every step; distinct = different histories"),
    "C05": dict(harness="json", configs=["asan"],
                rule="one execution = one random phrase or training set written, parsed and read into a target of random content, compared value by value, edited further and compared again; distinct = different contents and targets"),
    "C06": dict(harness="json", configs=["asan"],
                rule="one execution = one random Gaussian, configuration, shared parameters or (un)trained model written, parsed and read into a target of random content, compared member by member, then filtering and retraining compared bit for bit; distinct = different contents and targets"),
    "C07": dict(harness="jsonbad", configs=["asan"],
                rule="one execution = a random object's document mutated and read into another object one to four times, each result checked for consistency and used; distinct = different documents and mutations"),
    "C21": dict(harness="kmeans", configs=["asan"],
                rule="one execution = one to three random training sets and configurations clustered by one model, centres compared with an independent Lloyd and observations filtered; distinct = different data and configurations"),
    "C15": dict(harness="life", configs=["asan"],
                rule="one execution = one random history over a pool of models (or configurations, parameters, Gaussians, clusterings) copied, assigned, changed and destroyed, every other object compared with its state before after every step; distinct = different histories"),
    "C16": dict(harness="thread", configs=["asan"], ldflags=WRAP, case_timeout=40, hang_is_final=True, repeat=200,
                rule="one execution = one to three random trainings (whole set or one class, three threading modes, classes that fail, cancellations) with delays injected, the event log checked offline; distinct = different data, configurations and orders of events"),
    "C17": dict(harness="thread", configs=["tsan"], ldflags=WRAP, case_timeout=60, hang_is_final=True, repeat=100,
                rule="one execution = one random workload of trainings, pollers, listeners, cancellers and models trained together under ThreadSanitizer with delays injected at the library's synchronisation points; distinct = different data, configurations and orders of events"),
    "C18": dict(harness="thread", configs=["asan"], ldflags=WRAP, case_timeout=40, hang_is_final=True, repeat=200,
                rule="one execution = one random sequence of trainings applied in the three threading modes with delays injected, models, events and filtering compared bit for bit; distinct = different data, configurations and orders of events"),
    "C19": dict(harness="thread", configs=["asan"], ldflags=WRAP, case_timeout=40, hang_is_final=True, repeat=200,
                rule="one execution = a background training interrupted one to four times (cancel, retrain, clear, remove, destroy, other threads) at random points with delays injected, or (one in six) a sequential or parallel training cancelled by other threads; then classes, threads, events and a last training checked; distinct = different data, configurations and orders of events"),
}

# The fraction of the cases that also runs under memcheck (uninitialised values).
MEMCHECK = dict(C01=.1, C02=.1, C03=.1, C04=.1, C05=.05, C06=.04, C08=.1, C09=.03, C10=.05, C11=.04, C12=.04, C13=.04,
                C14=.02, C15=.012, C20=.04, C21=.04, C22=.04, C23=.04, C24=.008, C25=.008)
for p, s in MEMCHECK.items():
    PROPS[p]["configs"] = PROPS[p]["configs"] + ["memcheck"]
    PROPS[p]["config_scale"] = {"memcheck": s}
