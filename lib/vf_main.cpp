#include "vf.hpp"
#include <signal.h>
#include <time.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#if defined(VF_ASAN)
#include <sanitizer/allocator_interface.h>
#endif

namespace vf {
bool haveLiveBytes() {
#if defined(VF_ASAN)
    return true;
#else
    return false;
#endif
}
size_t liveBytes() {
#if defined(VF_ASAN)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

static std::string arg(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 1; i + 1 < argc; i++)
        if (!strcmp(argv[i], name)) return argv[i + 1];
    return dflt;
}

// usage: harness --prop ID --seed S --tier quick|thorough --shard i --shards n
//                [--from k] [--case k] --progress FILE --out FILE
int run(int argc, char** argv, std::vector<Property> const& props) {
    std::string id = arg(argc, argv, "--prop", "");
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
    bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
    uint64_t shard = strtoull(arg(argc, argv, "--shard", "0").c_str(), 0, 10);
    uint64_t shards = strtoull(arg(argc, argv, "--shards", "1").c_str(), 0, 10);
    uint64_t from = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10);
    std::string only = arg(argc, argv, "--case", "");
    std::string progress = arg(argc, argv, "--progress", "");
    std::string out = arg(argc, argv, "--out", "");
    double scale = atof(arg(argc, argv, "--scale", "1").c_str());
    const Property* p = nullptr;
    for (auto const& q : props)
        if (id == q.id) p = &q;
    if (!p) {
        fprintf(stderr, "harness: unknown property %s\n", id.c_str());
        return 3;
    }
    uint64_t total = uint64_t((thorough ? p->thorough : p->quick) * scale);
    if (total < 1) total = 1;
    int pfd = progress.empty() ? -1 : open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);

    std::map<std::string, uint64_t> tallies;
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations = 0, discarded = 0, leaks = 0;
    std::vector<std::string> samples, failures;
    std::map<std::string, int> perkey;

    auto one = [&](uint64_t k, bool count) -> bool {
        Case c{k, thorough, Rng(mix(mix(seed, Hash().add(id).h), k)), Hash(), false, "", &tallies};
        std::map<std::string, uint64_t> scratch;
        if (!count) c.tallies = &scratch;
        bool failed = false;
        std::string key, msg;
        try {
            p->fn(c);
        } catch (Failure& f) {
            failed = true;
            key = f.key;
            msg = f.msg;
        } catch (Discard& d) {
            if (count) {
                discarded++;
                tallies["discarded: " + d.why]++;
            }
            return true;
        } catch (std::exception& e) {
            failed = true;
            key = "unexpected-exception";
            msg = std::string("exception escaped to the workload: ") + e.what();
        } catch (...) {
            failed = true;
            key = "unexpected-exception";
            msg = "non-standard exception escaped to the workload";
        }
        if (!count) return !failed;
        evaluations++;
        if (c.nontrivial) distinct.insert(c.sig.h);
        if (failed) {
            if (perkey[key]++ < 3 && failures.size() < 40)
                failures.push_back("{\"key\": \"" + jesc(key) + "\", \"case\": " + std::to_string(k) +
                                   ", \"message\": \"" + jesc(msg.substr(0, 1500)) + "\", \"trace\": \"" +
                                   jesc(c.trace.size() > 3000 ? c.trace.substr(c.trace.size() - 3000) : c.trace) +
                                   "\"}");
            fprintf(stderr, "FAIL %s case %llu [%s] %s\n", id.c_str(), (unsigned long long)k, key.c_str(),
                    msg.c_str());
        } else if (c.nontrivial && samples.size() < 2 && !c.trace.empty()) {
            samples.push_back("\"case " + std::to_string(k) + ": " + jesc(c.trace.substr(0, 700)) + "\"");
        }
        return !failed;
    };

    uint64_t begin = shard, step = shards, end = total;
    if (!only.empty()) {
        begin = strtoull(only.c_str(), 0, 10);
        step = 1;
        end = begin + 1;
    }
    int repeat = only.empty() ? 1 : atoi(arg(argc, argv, "--repeat", "1").c_str());
    for (uint64_t k = begin; k < end; k += step) {
        if (k < from) continue;
        // for what depends on the schedule
        for (int i = 1; i < repeat; i++)
            if (!one(k, true)) break;
        if (pfd >= 0) {
            char b[32];
            int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)k);
            if (pwrite(pfd, b, n, 0) < 0) return 3;
        }
        bool ok = one(k, true);
        if (ok && p->leakEvery && haveLiveBytes() && (k / step) % uint64_t(std::abs(p->leakEvery)) == 0) {
            // The same case again, three times: memory that is still held after
            // each repetition, by the same amount, has leaked.
            one(k, false);
            size_t b0 = liveBytes();
            one(k, false);
            size_t b1 = liveBytes();
            if (b1 > b0) {
                one(k, false);
                size_t b2 = liveBytes();
                bool leak = b2 > b1 && b2 - b1 == b1 - b0;
                if (p->leakEvery < 0 && !leak) {
                    // depends on the schedule: memory only ever grows, and not once
                    size_t least = std::min(b1, b2), most = std::max(b1, b2);
                    int grows = 0;
                    for (int i = 0; i < 10 && least >= b1; i++) {
                        one(k, false);
                        size_t b = liveBytes();
                        if (b < most) least = 0;
                        if (b > most) grows++, most = b;
                    }
                    leak = least >= b1 && grows >= 2;
                    if (leak) b2 = b1 + (most - b1) / unsigned(grows);
                }
                if (leak) {
                    ok = false;
                    leaks++;
                    if (perkey["memory-leak"]++ < 3)
                        failures.push_back("{\"key\": \"memory-leak\", \"case\": " + std::to_string(k) +
                                           ", \"message\": \"each repetition of the case keeps " +
                                           std::to_string(b2 - b1) + " more bytes allocated\", \"trace\": \"\"}");
                    fprintf(stderr, "FAIL %s case %llu [memory-leak] %zu bytes per repetition\n", id.c_str(),
                            (unsigned long long)k, b2 - b1);
                }
            }
            tallies["leak-checked cases"]++;
        }
        if (!ok && perkey.size() && failures.size() >= 40) break;
    }
    if (pfd >= 0) {
        if (pwrite(pfd, "done                \n", 21, 0) < 0) return 3;
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) return 3;
        fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"leaks\": %llu, \"total\": %llu,\n \"distinct\": [",
                (unsigned long long)evaluations, (unsigned long long)discarded, (unsigned long long)leaks,
                (unsigned long long)total);
        bool first = true;
        for (auto h : distinct) {
            fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
            first = false;
        }
        fprintf(f, "],\n \"tallies\": {");
        first = true;
        for (auto& t : tallies) {
            fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(t.first).c_str(), (unsigned long long)t.second);
            first = false;
        }
        fprintf(f, "},\n \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", samples[i].c_str());
        fprintf(f, "],\n \"failures\": [");
        for (size_t i = 0; i < failures.size(); i++) fprintf(f, "%s%s", i ? ",\n " : "", failures[i].c_str());
        fprintf(f, "]}\n");
        fclose(f);
    }
    return failures.empty() ? 0 : 1;
}
}  // namespace vf
