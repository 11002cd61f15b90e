M = "ASan+UBSan build, random histories, online model oracle"
TECHNIQUE = {
    "C01": M, "C02": M + ", live-heap accounting", "C03": M + ", live-heap accounting",
    "C04": "ASan+UBSan build, random inputs, long double reference oracle",
    "C05": "ASan+UBSan build, random round trips, exact comparison oracle",
    "C06": "ASan+UBSan build, random models, exact round-trip and differential filtering oracle",
    "C07": "ASan+UBSan build, structure-aware mutation (fault injection), well-formedness oracle, live-heap accounting",
    "C08": "ASan+UBSan build, random inputs, long double reference oracle",
    "C09": "ASan+UBSan build, random inputs, eigen-decomposition oracle",
    "C10": "ASan+UBSan build, random trainings, independent EM/Baum-Welch reference oracle and validity monitors",
    "C11": "ASan+UBSan build, random models and streams, independent filtering oracle",
    "C12": "ASan+UBSan build, random models and streams, independent forward-recursion oracle",
    "C13": "ASan+UBSan build, random models and streams, independent regression oracle",
    "C14": "ASan+UBSan build, replay of recorded streams, bit-exact comparison oracle",
    "C15": M + ", live-heap accounting",
    "C16": "stress over schedules, offline checker of recorded event logs, TSan and ASan builds",
    "C17": "ThreadSanitizer over stress workloads with injected delays",
    "C18": "stress over schedules, differential oracle between threading modes",
    "C19": "stress with cancellations at random points, TSan and ASan builds, event-log checker, hang watchdog",
    "C20": M,
    "C21": "ASan+UBSan build, random trainings, independent Lloyd reference oracle",
    "C22": M,
    "C23": M,
    "C24": M,
    "C25": M,
}
S = "Holds on the executions explored (seeded, reproducible); bounds on sizes and lengths are in DESIGN.md. Trusts the oracle in harness/%s.cpp and the compiler's sanitizers."
H = dict(C01="phrase", C02="phrase", C03="trainingset", C04="trainingset", C05="json", C06="json", C07="jsonbad", C08="gauss",
         C09="gauss", C10="train", C11="filter", C12="filter", C13="filter", C14="filter", C15="life", C16="thread",
         C17="thread", C18="thread", C19="thread", C20="misc", C21="kmeans", C22="misc", C23="events", C24="train", C25="train")
NOTE = {k: S % v for k, v in H.items()}
