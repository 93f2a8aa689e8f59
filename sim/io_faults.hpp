// File seam: read(2) and fopen as seen by libstdc++'s file streams, plus a scratch directory per run.
#ifndef VERIF_IO_FAULTS_HPP
#define VERIF_IO_FAULTS_HPP

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>

#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>

namespace sim {
    struct io_faults {
        enum kind { none, eio_at, eintr, shorten };
        struct rule {
            kind k = none;
            unsigned long long at = 0, chunk = 0;
            bool open_fails = false;
            unsigned long long delivered = 0, calls = 0;
        };
        struct counts {
            unsigned long long eio = 0, eintr = 0, shortened = 0, open_failed = 0;
        };
        static std::map<std::string, rule> &rules() {
            static std::map<std::string, rule> r;
            return r;
        }
        static counts &tally() {
            static counts c;
            return c;
        }
        static counts take() {
            counts c = tally();
            tally() = counts();
            return c;
        }
        static bool &active() {
            static bool a = false;
            return a;
        }
        static void on_read(const std::string &path, kind k, unsigned long long at, unsigned long long chunk) {
            rule r;
            r.k = k;
            r.at = at;
            r.chunk = chunk;
            rules()[path] = r;
            active() = true;
        }
        static void on_open(const std::string &path) {
            rule r;
            r.open_fails = true;
            rules()[path] = r;
            active() = true;
        }
        static rule *of_fd(int fd) {
            char link[64], path[512];
            std::snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            ssize_t n = readlink(link, path, sizeof path - 1);
            if (n <= 0)
                return nullptr;
            path[n] = 0;
            auto it = rules().find(path);
            return it == rules().end() ? nullptr : &it->second;
        }
    };

    // a fresh directory below VERIF_WORK (or /tmp), removed with everything in it at the end of the run
    struct scratch_dir {
        std::string path;
        scratch_dir() {
            const char *e = std::getenv("VERIF_WORK");
            std::string base = e ? e : "/tmp";
            std::string t = base + "/scratch-XXXXXX";
            if (!mkdtemp(&t[0])) {
                std::perror("mkdtemp");
                std::abort();
            }
            path = t;
        }
        ~scratch_dir() {
            if (DIR *d = opendir(path.c_str())) {
                while (dirent *e = readdir(d)) {
                    std::string n = e->d_name;
                    if (n == "." || n == "..")
                        continue;
                    std::string p = path + "/" + n;
                    if (unlink(p.c_str()) != 0)
                        rmdir(p.c_str());
                }
                closedir(d);
            }
            rmdir(path.c_str());
        }
    };

    inline void write_file(const std::string &path, const std::string &bytes) {
        FILE *f = std::fopen(path.c_str(), "wb");
        if (!f || (bytes.size() && std::fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()))
            std::abort();
        std::fclose(f);
    }
}    // namespace sim

extern "C" ssize_t read(int fd, void *buf, size_t n) {
    typedef ssize_t (*fn)(int, void *, size_t);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "read"));
    if (!sim::io_faults::active())
        return real(fd, buf, n);
    sim::io_faults::rule *r = sim::io_faults::of_fd(fd);
    if (!r)
        return real(fd, buf, n);
    r->calls++;
    if (r->k == sim::io_faults::eintr && r->calls % (r->at + 1) != 0) {
        sim::io_faults::tally().eintr++;
        errno = EINTR;
        return -1;
    }
    if (r->k == sim::io_faults::eio_at) {
        if (r->delivered >= r->at) {
            sim::io_faults::tally().eio++;
            errno = EIO;
            return -1;
        }
        if (n > r->at - r->delivered)
            n = r->at - r->delivered;
    }
    if (r->chunk && n > r->chunk) {
        n = r->chunk;
        sim::io_faults::tally().shortened++;
    }
    ssize_t got = real(fd, buf, n);
    if (got > 0)
        r->delivered += got;
    return got;
}

static inline bool sim_open_fails(const char *path) {
    if (!sim::io_faults::active())
        return false;
    auto it = sim::io_faults::rules().find(path);
    if (it != sim::io_faults::rules().end() && it->second.open_fails) {
        sim::io_faults::tally().open_failed++;
        errno = EMFILE;
        return true;
    }
    return false;
}

extern "C" FILE *fopen64(const char *path, const char *mode) {
    typedef FILE *(*fn)(const char *, const char *);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "fopen64"));
    return sim_open_fails(path) ? nullptr : real(path, mode);
}
extern "C" FILE *fopen(const char *path, const char *mode) {
    typedef FILE *(*fn)(const char *, const char *);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "fopen"));
    return sim_open_fails(path) ? nullptr : real(path, mode);
}

#endif
