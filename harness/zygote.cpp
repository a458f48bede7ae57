// Fork server around oclint's own main() (compiled as oclint_main).
//
//   zygote [shared library to preload]...
//
// Request on stdin (binary, each item "<len>:<bytes>"):
//   count of items line, then cwd, timeout-seconds, number of env pairs, K=V...,
//   argv...
// Reply on stdout: "<exit status or -1> <signal or 0> <outlen> <errlen>\n" + out + err
#include <dlfcn.h>
#include <errno.h>
#include <grp.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

int oclint_main(int argc, const char **argv);
int api_main(int argc, const char **argv);

static bool readItem(std::string &s)
{
    size_t n = 0;
    int c;
    bool any = false;
    while ((c = getc(stdin)) != EOF && c != ':')
    {
        if (c < '0' || c > '9') { continue; }
        n = n * 10 + (c - '0');
        any = true;
    }
    if (c == EOF || !any) { return false; }
    s.resize(n);
    return n == 0 || fread(&s[0], 1, n, stdin) == n;
}

static std::string slurp(int fd)
{
    std::string s;
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_size > 0)
    {
        size_t want = st.st_size > (64 << 20) ? (64 << 20) : st.st_size;
        s.resize(want);
        size_t got = 0;
        while (got < want)
        {
            ssize_t r = pread(fd, &s[got], want - got, got);
            if (r <= 0) { break; }
            got += r;
        }
        s.resize(got);
    }
    return s;
}

int main(int argc, char **argv)
{
    // the code under test writes files: let it reach only scratch directories
    if (geteuid() == 0)
    {
        (void)!setgroups(0, nullptr);
        (void)!setgid(65534);
        (void)!setuid(65534);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int i = 1; i < argc; i++)
    {
        if (dlopen(argv[i], RTLD_NOW) == nullptr)
        {
            fprintf(stderr, "preload: %s\n", dlerror());
            return 97;
        }
    }
    int reply = dup(1);
    FILE *rf = fdopen(reply, "w");
    for (;;)
    {
        std::string count;
        if (!readItem(count)) { return 0; }
        int n = atoi(count.c_str());
        std::vector<std::string> items(n);
        for (auto &i : items)
        {
            if (!readItem(i)) { return 0; }
        }
        int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
        int timeout = atoi(items[1].c_str());
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            alarm(timeout);
            dup2(out, 1);
            dup2(err, 2);
            int nul = open("/dev/null", O_RDONLY);
            dup2(nul, 0);
            fclose(rf);
            if (chdir(items[0].c_str()) != 0) { _exit(98); }
            int ne = atoi(items[2].c_str());
            for (int i = 0; i < ne; i++)
            {
                std::string &kv = items[3 + i];
                size_t eq = kv.find('=');
                if (eq == std::string::npos) { unsetenv(kv.c_str()); }
                else { setenv(kv.substr(0, eq).c_str(), kv.c_str() + eq + 1, 1); }
            }
            std::vector<const char *> av;
            for (size_t i = 3 + ne; i < items.size(); i++) { av.push_back(items[i].c_str()); }
            av.push_back(nullptr);
            int rc = av[0][0] == '@' ? api_main((int)av.size() - 1, av.data())
                                     : oclint_main((int)av.size() - 1, av.data());
            fflush(stdout);
            fflush(stderr);
            // like a return from main, without the (slow) static destructors
            extern void flushCxxStreams();
            flushCxxStreams();
            _exit(rc);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        std::string o = slurp(out), e = slurp(err);
        close(out);
        close(err);
        fprintf(rf, "%d %d %zu %zu\n", rc, sig, o.size(), e.size());
        fwrite(o.data(), 1, o.size(), rf);
        fwrite(e.data(), 1, e.size(), rf);
        fflush(rf);
    }
}

#include <iostream>
#include <llvm/Support/raw_ostream.h>
void flushCxxStreams()
{
    std::cout.flush();
    std::cerr.flush();
    llvm::outs().flush();
    llvm::errs().flush();
}
