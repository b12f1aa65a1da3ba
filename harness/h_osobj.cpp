// C31: random histories of creating, opening, using, moving and destroying shared memory, files, named semaphores and file
// locks in all open modes, access modes, sizes and permissions, mixed with foreign changes and failing system calls. After
// every step the state of the operating system is compared with an exact model. mode race: several threads create, open and
// destroy the same object under the controlled scheduler with a schedule point at every system call.
#include "common.hpp"
#include "sched.hpp"
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/posix_shm_memory_provider.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/posix_memory_map.hpp"
#include "iox/detail/posix_shared_memory.hpp"
#include "iox/file.hpp"
#include "iox/file_lock.hpp"
#include "iox/logging.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/posix_shared_memory_object.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <memory>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>

using namespace iox;
using vh::count;
using vh::fmt;
using vh::Rng;
using detail::PosixMemoryMap;
using detail::PosixMemoryMapBuilder;
using detail::PosixMemoryMapFlags;
using detail::PosixSharedMemory;
using detail::PosixSharedMemoryBuilder;

namespace
{
struct Fault
{
    const char* fn{nullptr};
    int nth{0};
    int err{0};
    bool hit{false};
};
thread_local Fault* t_fault = nullptr;
bool broken(const char* fn)
{
    if (vs::controlled())
    {
        int e = errno;
        vs::point();
        errno = e;
    }
    if (t_fault && t_fault->fn && !strcmp(t_fault->fn, fn) && --t_fault->nth == 0)
    {
        t_fault->hit = true;
        errno = t_fault->err;
        return true;
    }
    return false;
}
template <typename F>
F real(const char* n)
{
    int e = errno;
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
    errno = e;
    return f;
}
} // namespace
extern "C" int shm_open(const char* n, int f, mode_t m) { return broken("shm_open") ? -1 : real<int (*)(const char*, int, mode_t)>("shm_open")(n, f, m); }
extern "C" int shm_unlink(const char* n) { return broken("shm_unlink") ? -1 : real<int (*)(const char*)>("shm_unlink")(n); }
extern "C" int ftruncate(int fd, off_t n) noexcept { return broken("ftruncate") ? -1 : int(syscall(SYS_ftruncate, fd, n)); }
extern "C" int sem_unlink(const char* n) noexcept { return broken("sem_unlink") ? -1 : real<int (*)(const char*)>("sem_unlink")(n); }
extern "C" sem_t* sem_open(const char* n, int f, ...)
{
    if (broken("sem_open")) return SEM_FAILED;
    va_list a;
    va_start(a, f);
    mode_t m = (f & O_CREAT) ? va_arg(a, mode_t) : 0;
    unsigned v = (f & O_CREAT) ? va_arg(a, unsigned) : 0;
    va_end(a);
    return real<sem_t* (*)(const char*, int, ...)>("sem_open")(n, f, m, v);
}
extern "C" int open(const char* n, int f, ...)
{
    if (broken("open")) return -1;
    va_list a;
    va_start(a, f);
    mode_t m = (f & O_CREAT) ? va_arg(a, mode_t) : 0;
    va_end(a);
    return int(syscall(SYS_openat, AT_FDCWD, n, f, m));
}
extern "C" int remove(const char* n) noexcept { return broken("remove") ? -1 : real<int (*)(const char*)>("remove")(n); }
extern "C" int flock(int fd, int op) noexcept { return broken("flock") ? -1 : int(syscall(SYS_flock, fd, op)); }
extern "C" int fstat(int fd, struct stat* s) noexcept { return broken("fstat") ? -1 : int(syscall(SYS_fstat, fd, s)); }
extern "C" void* mmap(void* a, size_t l, int p, int fl, int fd, off_t o) noexcept
{
    if (fd >= 0 && broken("mmap")) return MAP_FAILED;
    return reinterpret_cast<void*>(syscall(SYS_mmap, a, l, p, fl, fd, o));
}

namespace
{
std::string g_dir, g_tag, g_log;
uint64_t g_case{0};

size_t fds()
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (auto* e = readdir(d))
        if (e->d_name[0] != '.') ++n;
    closedir(d);
    return n - 1;
}
struct Map
{
    uint64_t from, to;
    std::string perms;
};
std::vector<Map> mapsOf(const std::string& part)
{
    std::vector<Map> r;
    FILE* f = fopen("/proc/self/maps", "r");
    char line[1024];
    while (f && fgets(line, sizeof line, f))
    {
        if (!strstr(line, part.c_str())) continue;
        unsigned long a, b;
        char p[8];
        if (sscanf(line, "%lx-%lx %7s", &a, &b, p) == 3) r.push_back({a, b, p});
    }
    if (f) fclose(f);
    return r;
}

constexpr uint64_t SMALL = 40000;
struct Obj
{
    uint64_t size{0};
    unsigned mode{0};
    std::vector<uint8_t> data; // when size <= SMALL
    uint64_t value{0};         // semaphores
    bool locked{false};
    ino_t inode{0};
};
using ObjP = std::shared_ptr<Obj>;
enum Kind { SHM, FILE_, SEM, LOCK };
const char* KN[] = {"shm", "file", "sem", "lock"};
struct Name
{
    Kind kind;
    std::string name, path;
    ObjP obj;
};
struct Handle
{
    Kind kind;
    Name* n;
    ObjP obj;
    bool owner{false};
    AccessMode am{};
    std::unique_ptr<PosixSharedMemory> shm;
    std::unique_ptr<PosixSharedMemoryObject> shmo;
    std::unique_ptr<File> file;
    std::unique_ptr<FileLock> lock;
    optional<NamedSemaphore> sem;
    std::unique_ptr<PosixMemoryMap> map;
};
const char* OM[] = {"exclusive", "purge", "open_or_create", "open_existing"};
OpenMode om(unsigned i)
{
    return i == 0 ? OpenMode::ExclusiveCreate : i == 1 ? OpenMode::PurgeAndCreate : i == 2 ? OpenMode::OpenOrCreate : OpenMode::OpenExisting;
}
const char* AM[] = {"ro", "rw", "wo"};
AccessMode am(unsigned i) { return i == 0 ? AccessMode::ReadOnly : i == 1 ? AccessMode::ReadWrite : AccessMode::WriteOnly; }
access_rights rightsOf(unsigned m) { return access_rights::from_value_sanitized(uint16_t(m)); }

struct World
{
    Rng r;
    std::vector<std::unique_ptr<Name>> names;
    std::vector<std::unique_ptr<Handle>> hs;
    size_t baseFds{0};
    mode_t um{0};
    explicit World(uint64_t s) : r(s) {}

    void say(const std::string& s) { g_log += " " + s; }
    bool exists(const Name& n, struct stat& st) { return ::stat(n.path.c_str(), &st) == 0; }
    void check(const char* after)
    {
        for (auto& np : names)
        {
            Name& n = *np;
            struct stat st;
            bool e = exists(n, st);
            VH_CHECK(e == (n.obj != nullptr), e ? "remains" : "vanished", "%s '%s' %s after %s |%s", KN[n.kind], n.name.c_str(), e ? "exists but should not" : "does not exist but should", after, g_log.c_str());
            if (!e) continue;
            Obj& o = *n.obj;
            if (!o.inode) o.inode = st.st_ino;
            VH_CHECK(o.inode == st.st_ino, "replaced", "%s '%s' is another object after %s |%s", KN[n.kind], n.name.c_str(), after, g_log.c_str());
            VH_CHECK((st.st_mode & 07777) == o.mode, "permissions", "%s '%s' has permissions %o, expected %o, after %s |%s", KN[n.kind], n.name.c_str(), unsigned(st.st_mode & 07777), o.mode, after, g_log.c_str());
            if (n.kind == SHM || n.kind == FILE_)
            {
                VH_CHECK(uint64_t(st.st_size) == o.size, "size", "%s '%s' has size %llu, expected %llu, after %s |%s", KN[n.kind], n.name.c_str(), (unsigned long long)st.st_size, (unsigned long long)o.size, after, g_log.c_str());
                if (o.size <= SMALL)
                {
                    int fd = int(syscall(SYS_openat, AT_FDCWD, n.path.c_str(), O_RDONLY));
                    std::vector<uint8_t> b(o.size + 1);
                    ssize_t k = pread(fd, b.data(), b.size(), 0);
                    close(fd);
                    VH_CHECK(k == ssize_t(o.size) && (!k || !memcmp(b.data(), o.data.data(), o.size)), "content", "the content of %s '%s' is not the expected one after %s |%s", KN[n.kind], n.name.c_str(), after, g_log.c_str());
                    count("content_checks");
                }
            }
            if (n.kind == SEM)
            {
                sem_t* s = ::sem_open(("/" + n.name).c_str(), 0);
                int v = -1;
                if (s != SEM_FAILED)
                {
                    sem_getvalue(s, &v);
                    sem_close(s);
                }
                VH_CHECK(s == SEM_FAILED || uint64_t(v) == o.value, "sem_value", "semaphore '%s' has value %d, expected %llu, after %s |%s", n.name.c_str(), v, (unsigned long long)o.value, after, g_log.c_str());
            }
        }
        size_t want = 0, wantMaps = 0;
        for (auto& h : hs)
        {
            if (h->kind != SEM) ++want;
            if (h->map || h->shmo) ++wantMaps;
        }
        size_t have = fds() - baseFds;
        VH_CHECK(have == want, "descriptors", "%zu file descriptors are open for %zu handles after %s |%s", have, want, after, g_log.c_str());
        static size_t before = 0;
        bool look = wantMaps != before || hs.empty() || r.chance(100);
        before = wantMaps;
        auto m = look ? mapsOf("/vo_" + g_tag) : std::vector<Map>(wantMaps);
        VH_CHECK(m.size() == wantMaps, "mappings", "%zu mappings exist, expected %zu, after %s |%s", m.size(), wantMaps, after, g_log.c_str());
        mode_t u = umask(um);
        VH_CHECK(u == um, "umask", "the umask of the process is %o instead of %o after %s |%s", unsigned(u), unsigned(um), after, g_log.c_str());
        count("state_checks");
    }
    unsigned someMode()
    {
        static const unsigned M[] = {0600, 0660, 0666, 0644, 0777, 0400, 0200, 0040, 0, 0700};
        return r.chance(150) ? unsigned(r.below(01000)) : M[r.below(10)];
    }
    uint64_t someSize(bool obj)
    {
        switch (r.below(10))
        {
        case 0: return 0;
        case 1: return 1;
        case 2: return 4096;
        case 3: return 4096 * r.range(1, 9);
        case 4: return 4096 * r.range(1, 8) + 1;
        case 5: return obj ? 100 : (1ull << 33) + r.below(5000);
        case 6: return r.chance(500) ? ~0ull - r.below(3) : (1ull << 63) + r.below(3);
        default: return r.below(20000);
        }
    }
    // a failing system call for the next operation
    Fault someFault(Kind k)
    {
        Fault f;
        if (!r.chance(220)) return f;
        static const int E[] = {EACCES, EMFILE, ENFILE, ENOMEM, EIO, EINVAL, EPERM};
        static const char* S[] = {"shm_open", "shm_open", "ftruncate", "fstat", "mmap", "mmap", "shm_unlink"};
        static const char* F[] = {"open", "fstat", "remove"};
        static const char* M[] = {"sem_open", "sem_open", "sem_unlink"};
        f.fn = k == SHM ? S[r.below(7)] : k == FILE_ ? F[r.below(3)] : k == SEM ? M[r.below(3)] : "open";
        f.nth = k == LOCK || k == FILE_ || r.chance(700) ? 1 : 2;
        f.err = E[r.below(7)];
        return f;
    }
    void fresh(Name& n, uint64_t size, unsigned mode)
    {
        n.obj = std::make_shared<Obj>();
        n.obj->size = size;
        n.obj->mode = mode;
        if (size <= SMALL) n.obj->data.assign(size, 0);
    }
    // judge an attempt which should create (1), open (0) or be refused (-1); true: a handle was made
    bool verdict(Name& n, const Fault& f, bool purge, bool ok, int want, const char* how)
    {
        if (f.hit)
        {
            count("faults");
            // the failing of an operation which is only made to tidy up does not have to be reported
            bool tidy = !strcmp(f.fn, "shm_unlink") || !strcmp(f.fn, "remove");
            bool mayRetry = false;
            VH_CHECK(!ok || (tidy && want >= 0 && !n.obj) || mayRetry, "fault_ignored", "%s succeeded although %s failed |%s", how, f.fn, g_log.c_str());
            if (!ok)
            {
                if (purge && !tidy && strcmp(f.fn, "sem_unlink")) n.obj = nullptr;
                return false;
            }
            return true;
        }
        VH_CHECK(ok == (want >= 0), ok ? "accepted" : "refused", "%s %s |%s", how, ok ? "succeeded but should be refused" : "was refused but should succeed", g_log.c_str());
        if (!ok) count("refused");
        return ok;
    }
    void create()
    {
        Name& n = *names[r.below(names.size())];
        if (hs.size() >= 7) return;
        unsigned o = unsigned(r.below(4)), a = unsigned(r.below(n.kind == FILE_ ? 3 : 2)), mode = someMode();
        if (n.kind == SHM && r.chance(700)) a = 1;
        bool purge = o == 1 && n.kind != LOCK;
        Fault f = someFault(n.kind);
        // only the removal made to purge fails, not the one which tidies up after another failure
        if (f.fn && (!strcmp(f.fn, "remove") || !strcmp(f.fn, "shm_unlink")))
        {
            f.nth = 1;
            if (!purge) f.fn = nullptr;
        }
        std::unique_ptr<Handle> h(new Handle);
        h->kind = n.kind;
        h->n = &n;
        h->am = am(a);
        bool had = n.obj != nullptr;
        ObjP hadObj = n.obj;
        // should it be created, opened or refused?
        int want = o == 0 ? (had ? -1 : 1) : o == 1 ? 1 : o == 2 ? (had ? 0 : 1) : (had ? 0 : -1);
        if (n.kind == SHM)
        {
            bool obj = r.chance(600);
            uint64_t size = someSize(obj);
            if (obj && had && r.chance(500)) size = n.obj->size + r.below(3) - 1;
            if (obj && size > 1000000 && !(size >> 62)) size = 100; // would really be allocated
            bool mapped = obj;
            if (o != 3 && a == 0) want = -1, purge = false; // refused before anything is done
            else if (purge) n.obj = nullptr;
            if (obj && want == 0 && (n.obj->size < size || n.obj->size == 0 || n.obj->size > SMALL)) want = n.obj->size > SMALL && n.obj->size >= size ? 0 : -1;
            bool bad = size >> 62;
            if (want == 1 && (bad || (obj && size == 0))) want = -1;
            say(fmt("%s(%s,%s,%s,%llu,%o%s)", obj ? "shmo" : "shm", n.name.c_str() + 3, OM[o], AM[a], (unsigned long long)size, mode, f.fn ? fmt(",%s#%d fails with %d", f.fn, f.nth, f.err).c_str() : ""));
            PosixSharedMemory::Name_t nm(TruncateToCapacity, n.name.c_str());
            t_fault = &f;
            bool ok = false;
            if (obj)
            {
                uint64_t hint = r.chance(200) ? 0x200000000000ull + r.below(100000) * 4096 : 0;
                PosixSharedMemoryObjectBuilder b;
                std::move(std::move(std::move(std::move(std::move(b).name(nm)).memorySizeInBytes(size)).accessMode(am(a))).openMode(om(o))).permissions(rightsOf(mode));
                if (hint) std::move(b).baseAddressHint(optional<const void*>(reinterpret_cast<const void*>(hint)));
                auto res = b.create();
                t_fault = nullptr;
                if ((ok = res.has_value())) h->shmo.reset(new PosixSharedMemoryObject(std::move(*res)));
            }
            else
            {
                auto res = PosixSharedMemoryBuilder().name(nm).accessMode(am(a)).openMode(om(o)).size(size).filePermissions(rightsOf(mode)).create();
                t_fault = nullptr;
                if ((ok = res.has_value())) h->shm.reset(new PosixSharedMemory(std::move(*res)));
                else if (!f.hit && o == 0 && had && a == 1) VH_CHECK(res.error() == iox::detail::PosixSharedMemoryError::DOES_EXIST, "error", "creating an existing object is refused with another error |%s", g_log.c_str());
                else if (!f.hit && o == 3 && !had) VH_CHECK(res.error() == iox::detail::PosixSharedMemoryError::DOES_NOT_EXIST, "error", "opening an absent object is refused with another error |%s", g_log.c_str());
            }
            if (f.hit && purge && !strcmp(f.fn, "shm_unlink") && had && !ok) n.obj = hadObj;
            if (!verdict(n, f, purge, ok, want, "create")) return;
            if (want == 1)
            {
                fresh(n, size, mode);
                h->owner = true;
            }
            h->obj = n.obj;
            count(want == 1 ? "created" : "opened");
            VH_CHECK((obj ? h->shmo->hasOwnership() : h->shm->hasOwnership()) == h->owner, "ownership", "the handle claims %s |%s", h->owner ? "no ownership" : "ownership", g_log.c_str());
            if (mapped)
            {
                auto m = mapsOf("/vo_" + g_tag);
                uint64_t base = uint64_t(h->shmo->getBaseAddress());
                const Map* mm = nullptr;
                for (auto& x : m)
                    if (x.from == base) mm = &x;
                VH_CHECK(mm, "not_mapped", "the object is not mapped at its base address |%s", g_log.c_str());
                VH_CHECK(mm->to - mm->from >= h->obj->size, "short_mapping", "%llu bytes are mapped of %llu |%s", (unsigned long long)(mm->to - mm->from), (unsigned long long)h->obj->size, g_log.c_str());
                VH_CHECK(mm->perms.substr(0, 2) == (a ? "rw" : "r-") && mm->perms[3] == 's', "mapping_mode", "the object is mapped as %s |%s", mm->perms.c_str(), g_log.c_str());
                auto sz = h->shmo->get_size();
                VH_CHECK(sz.has_value() && *sz == h->obj->size, "reported_size", "the handle reports another size |%s", g_log.c_str());
                if (h->obj->size <= SMALL)
                    VH_CHECK(!memcmp(h->shmo->getBaseAddress(), h->obj->data.data(), h->obj->size), "mapped_content", "the mapped content differs |%s", g_log.c_str());
                count("mappings");
            }
        }
        else if (n.kind == FILE_)
        {
            bool plain = r.chance(300) && !(f.fn && !strcmp(f.fn, "remove")); // open instead of create: nothing is purged
            if (plain && o == 1)
            {
                purge = false;
                want = had ? -1 : 1;
            }
            unsigned eff = mode & ~um & 0777, seen = want == 1 ? eff : had ? n.obj->mode : 0;
            if (want >= 0 && ((a != 2 && !(seen & 0400)) || (a != 0 && !(seen & 0200)))) want = -1;
            say(fmt("file(%s,%s%s,%s,%o%s)", n.name.c_str(), plain ? "open:" : "", OM[o], AM[a], mode, f.fn ? fmt(",%s#%d fails with %d", f.fn, f.nth, f.err).c_str() : ""));
            auto path = FilePath::create(string<platform::IOX_MAX_PATH_LENGTH>(TruncateToCapacity, n.path.c_str())).expect("path");
            ObjP old = n.obj;
            t_fault = &f;
            auto b = FileBuilder().permissions(rightsOf(mode)).access_mode(am(a)).open_mode(om(o));
            auto res = plain ? b.open(path) : b.create(path);
            t_fault = nullptr;
            if (purge && !(f.hit && !strcmp(f.fn, "remove"))) n.obj = nullptr;
            if (f.hit && !strcmp(f.fn, "remove") && res.has_error() && had)
                VH_CHECK(res.error() == FileCreationError::CannotBePurged || want < 0 || !purge, "error", "failing purge is refused with another error |%s", g_log.c_str());
            bool wasNew = want == 1;
            if (!verdict(n, f, false, res.has_value(), want, "create")) return;
            h->file.reset(new File(std::move(*res)));
            if (wasNew) fresh(n, 0, eff);
            h->obj = n.obj;
            count(wasNew ? "created" : "opened");
        }
        else if (n.kind == SEM)
        {
            uint64_t v = r.chance(100) ? SEM_VALUE_MAX - r.below(2) : r.chance(80) ? uint64_t(SEM_VALUE_MAX) + 1 + r.below(5) : r.below(6);
            bool bad = v > SEM_VALUE_MAX;
            say(fmt("sem(%s,%s,%llu,%o%s)", n.name.c_str(), OM[o], (unsigned long long)v, mode, f.fn ? fmt(",%s#%d fails with %d", f.fn, f.nth, f.err).c_str() : ""));
            if (bad) want = -1, purge = false;
            t_fault = &f;
            auto res = NamedSemaphoreBuilder().name(NamedSemaphore::Name_t(TruncateToCapacity, n.name.c_str())).openMode(om(o)).permissions(rightsOf(mode)).initialValue(uint32_t(v)).create(h->sem);
            t_fault = nullptr;
            bool ok = !res.has_error();
            VH_CHECK(ok == h->sem.has_value(), "half_created", "result and handle do not agree |%s", g_log.c_str());
            if (!ok && !f.hit)
                VH_CHECK(res.error() == (bad ? SemaphoreError::SEMAPHORE_OVERFLOW : o == 3 ? SemaphoreError::NO_SEMAPHORE_WITH_THAT_NAME_EXISTS : SemaphoreError::ALREADY_EXIST), "error", "refused with another error |%s", g_log.c_str());
            if (!verdict(n, f, purge, ok, want, "create")) return;
            if (want == 1)
            {
                fresh(n, 0, mode & ~um & 0777);
                n.obj->value = v;
                h->owner = true;
            }
            h->obj = n.obj;
            count(want == 1 ? "created" : "opened");
        }
        else
        {
            say(fmt("lock(%s,%o%s)", n.name.c_str(), mode, f.fn ? " open fails" : ""));
            want = had ? (n.obj->locked ? -1 : 0) : 1;
            t_fault = &f;
            auto res = FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, n.name.c_str())).path(FileLock::PathName_t(TruncateToCapacity, g_dir.c_str())).permission(rightsOf(mode)).create();
            t_fault = nullptr;
            if (res.has_error() && !f.hit) VH_CHECK(res.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, "error", "refused with another error |%s", g_log.c_str());
            if (!verdict(n, f, false, res.has_value(), want, "lock")) return;
            h->lock.reset(new FileLock(std::move(*res)));
            if (want == 1) fresh(n, 0, mode & ~um & 0777);
            n.obj->locked = true;
            h->owner = true;
            h->obj = n.obj;
            count("locked");
        }
        hs.push_back(std::move(h));
    }
    // an owner removes what is known under its name
    void ended(Handle& h)
    {
        if (h.owner) h.n->obj = nullptr;
    }
    void destroy(size_t i)
    {
        say(fmt("destroy(%s %s%s)", KN[hs[i]->kind], hs[i]->n->name.c_str(), hs[i]->owner ? " owner" : ""));
        ended(*hs[i]);
        hs.erase(hs.begin() + long(i));
        count("destroyed");
    }
    void move()
    {
        if (hs.empty()) return;
        Handle& h = *hs[r.below(hs.size())];
        if (h.kind == SEM) return;
        say(fmt("move(%s %s)", KN[h.kind], h.n->name.c_str()));
        if (h.map) h.map.reset(new PosixMemoryMap(std::move(*h.map)));
        if (h.shm) h.shm.reset(new PosixSharedMemory(std::move(*h.shm)));
        else if (h.shmo) h.shmo.reset(new PosixSharedMemoryObject(std::move(*h.shmo)));
        else if (h.file) h.file.reset(new File(std::move(*h.file)));
        else if (h.lock) h.lock.reset(new FileLock(std::move(*h.lock)));
        count("moved");
    }
    void moveAssign()
    {
        if (hs.size() < 2) return;
        size_t i = r.below(hs.size()), j = r.below(hs.size());
        Handle &a = *hs[i], &b = *hs[j];
        if (a.kind != b.kind || a.kind == SEM || !a.shm != !b.shm || a.map || b.map) return;
        if (i == j)
        {
            say("self-assign");
            if (a.shm) { auto& x = *a.shm; *a.shm = std::move(x); }
            else if (a.shmo) { auto& x = *a.shmo; *a.shmo = std::move(x); }
            else if (a.file) { auto& x = *a.file; *a.file = std::move(x); }
            else if (a.lock) { auto& x = *a.lock; *a.lock = std::move(x); }
            return;
        }
        say(fmt("assign(%s %s%s <- %s%s)", KN[a.kind], a.n->name.c_str(), a.owner ? " owner" : "", b.n->name.c_str(), b.owner ? " owner" : ""));
        if (a.shm) *a.shm = std::move(*b.shm);
        else if (a.shmo) *a.shmo = std::move(*b.shmo);
        else if (a.file) *a.file = std::move(*b.file);
        else *a.lock = std::move(*b.lock);
        ended(a);
        a.n = b.n, a.obj = b.obj, a.owner = b.owner, a.am = b.am;
        b.owner = false;
        hs.erase(hs.begin() + long(j)); // destroys the moved-from one
        count("assigned");
    }
    void use()
    {
        if (hs.empty()) return;
        Handle& h = *hs[r.below(hs.size())];
        if (h.kind == SEM)
        {
            if (r.chance(500))
            {
                say("post");
                auto x = h.sem->post();
                bool full = h.obj->value == SEM_VALUE_MAX;
                VH_CHECK(x.has_error() == full, "post", "posting %s |%s", full ? "at the maximum succeeds" : "fails", g_log.c_str());
                if (full) VH_CHECK(x.error() == SemaphoreError::SEMAPHORE_OVERFLOW, "error", "overflow is another error |%s", g_log.c_str());
                if (!full) ++h.obj->value;
            }
            else
            {
                say("try_wait");
                auto x = h.sem->tryWait();
                VH_CHECK(!x.has_error() && *x == (h.obj->value > 0), "try_wait", "try_wait of a semaphore with value %llu |%s", (unsigned long long)h.obj->value, g_log.c_str());
                if (h.obj->value) --h.obj->value;
            }
            count("sem_operations");
        }
        else if (h.kind == FILE_)
        {
            std::vector<uint8_t> b(r.below(300) + 1);
            uint64_t off = r.chance(300) ? 0 : r.below(3000);
            if (r.chance(500))
            {
                for (auto& x : b) x = uint8_t(r.next());
                say(fmt("write_at(%llu,%zu)", (unsigned long long)off, b.size()));
                auto x = off || r.chance(500) ? h.file->write_at(off, b.data(), b.size()) : h.file->write(b.data(), b.size());
                VH_CHECK(x.has_error() == (h.am == AccessMode::ReadOnly) && (x.has_error() || *x == b.size()), "write", "writing gives another result than expected |%s", g_log.c_str());
                if (!x.has_error())
                {
                    Obj& o = *h.obj;
                    if (o.size < off + b.size()) o.size = off + b.size(), o.data.resize(o.size);
                    memcpy(o.data.data() + off, b.data(), b.size());
                }
            }
            else
            {
                std::vector<uint8_t> g(b.size() + 1, 0xcd);
                say(fmt("read_at(%llu,%zu)", (unsigned long long)off, b.size()));
                auto x = off || r.chance(500) ? h.file->read_at(off, g.data(), b.size()) : h.file->read(g.data(), b.size());
                VH_CHECK(x.has_error() == (h.am == AccessMode::WriteOnly), "read", "reading gives another result than expected |%s", g_log.c_str());
                if (!x.has_error())
                {
                    Obj& o = *h.obj;
                    uint64_t k = off >= o.size ? 0 : std::min<uint64_t>(b.size(), o.size - off);
                    VH_CHECK(*x == k && (!k || !memcmp(g.data(), o.data.data() + off, k)) && g[k] == 0xcd, "read", "reading gives other data than expected |%s", g_log.c_str());
                }
            }
            count("file_operations");
        }
        else if (h.kind == SHM)
        {
            Obj& o = *h.obj;
            if (h.shmo && o.size && o.size <= SMALL)
            {
                uint64_t at = r.chance(300) ? o.size - 1 : r.below(o.size), len = r.range(1, std::min<uint64_t>(o.size - at, 200));
                auto* p = static_cast<uint8_t*>(h.shmo->getBaseAddress());
                VH_CHECK(!memcmp(p, o.data.data(), o.size), "mapped_content", "the mapped content differs |%s", g_log.c_str());
                if (h.am == AccessMode::ReadWrite)
                {
                    say(fmt("store(%llu,%llu)", (unsigned long long)at, (unsigned long long)len));
                    for (uint64_t k = 0; k < len; ++k) p[at + k] = o.data[at + k] = uint8_t(r.next());
                }
                count("stores");
            }
            else if (h.shm && !h.map && o.size && o.size <= SMALL)
            {
                bool priv = r.chance(300), ro = h.am == AccessMode::ReadOnly || r.chance(300);
                uint64_t off = r.chance(300) && o.size > 4096 ? 4096 : 0, len = o.size - off;
                if (r.chance(200)) len = 0;
                Fault f;
                if (r.chance(150)) f.fn = "mmap", f.nth = 1, f.err = ENOMEM;
                say(fmt("map(%s,%s,%llu,%llu%s)", priv ? "private" : "shared", ro ? "ro" : "rw", (unsigned long long)off, (unsigned long long)len, f.fn ? ",fails" : ""));
                t_fault = &f;
                auto x = PosixMemoryMapBuilder().length(len).fileDescriptor(h.shm->getHandle()).accessMode(ro ? AccessMode::ReadOnly : AccessMode::ReadWrite).flags(priv ? PosixMemoryMapFlags::PRIVATE_CHANGES : PosixMemoryMapFlags::SHARE_CHANGES).offset(off_t(off)).create();
                t_fault = nullptr;
                VH_CHECK(x.has_error() == (f.hit || !len), "map", "mapping gives another result than expected |%s", g_log.c_str());
                if (!x.has_error())
                {
                    h.map.reset(new PosixMemoryMap(std::move(*x)));
                    auto* p = static_cast<uint8_t*>(h.map->getBaseAddress());
                    VH_CHECK(!memcmp(p, o.data.data() + off, len), "mapped_content", "the mapped content differs |%s", g_log.c_str());
                    if (!ro)
                    {
                        p[len - 1] = uint8_t(p[len - 1] + 1);
                        if (!priv) o.data[off + len - 1] = uint8_t(o.data[off + len - 1] + 1);
                    }
                    count("maps");
                }
            }
            else if (h.map)
            {
                say("unmap");
                h.map.reset();
            }
            if (r.chance(200))
            {
                unsigned m = someMode();
                say(fmt("chmod(%o)", m));
                auto x = h.shm ? h.shm->set_permissions(rightsOf(m)) : h.shmo->set_permissions(rightsOf(m));
                VH_CHECK(!x.has_error(), "chmod", "set_permissions fails |%s", g_log.c_str());
                o.mode = m;
                auto g = h.shm ? h.shm->get_permissions() : h.shmo->get_permissions();
                VH_CHECK(g.has_value() && g->value() == m, "chmod", "get_permissions gives something else |%s", g_log.c_str());
            }
            auto sz = h.shm ? h.shm->get_size() : h.shmo->get_size();
            VH_CHECK(sz.has_value() && *sz == o.size, "reported_size", "the handle reports another size |%s", g_log.c_str());
        }
    }
    // somebody else creates or removes the object
    void foreign()
    {
        Name& n = *names[r.below(names.size())];
        if (r.chance(600) && !n.obj)
        {
            unsigned m = 0600 | unsigned(r.below(0200));
            if (r.chance(200)) m = unsigned(r.below(01000));
            uint64_t size = n.kind == SHM || n.kind == FILE_ ? r.below(15000) : 0;
            say(fmt("foreign_create(%s %s,%llu,%o)", KN[n.kind], n.name.c_str(), (unsigned long long)size, m));
            if (n.kind == SEM)
            {
                uint64_t v = r.below(4);
                mode_t u = umask(0);
                sem_t* s = ::sem_open(("/" + n.name).c_str(), O_CREAT | O_EXCL, m, unsigned(v));
                umask(u);
                if (s == SEM_FAILED) exit(75);
                sem_close(s);
                fresh(n, 0, m);
                n.obj->value = v;
            }
            else
            {
                int fd = int(syscall(SYS_openat, AT_FDCWD, n.path.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600));
                if (fd < 0) exit(75);
                fresh(n, size, m);
                for (auto& x : n.obj->data) x = uint8_t(r.next());
                if (size && write(fd, n.obj->data.data(), size) != ssize_t(size)) exit(75);
                fchmod(fd, m);
                close(fd);
            }
        }
        else if (n.obj && !n.obj->locked && r.chance(400))
        {
            say(fmt("foreign_remove(%s %s)", KN[n.kind], n.name.c_str()));
            ::unlink(n.path.c_str());
            n.obj = nullptr;
        }
        else if (n.kind == SHM && r.chance(300))
        {
            say("unlinkIfExist " + n.name);
            auto x = PosixSharedMemory::unlinkIfExist(PosixSharedMemory::Name_t(TruncateToCapacity, n.name.c_str()));
            VH_CHECK(x.has_value() && *x == (n.obj != nullptr), "unlink_result", "unlinkIfExist reports something else |%s", g_log.c_str());
            n.obj = nullptr;
        }
        else if (n.kind == FILE_)
        {
            auto path = FilePath::create(string<platform::IOX_MAX_PATH_LENGTH>(TruncateToCapacity, n.path.c_str())).expect("path");
            auto e = File::does_exist(path);
            VH_CHECK(e.has_value() && *e == (n.obj != nullptr), "does_exist", "does_exist reports something else |%s", g_log.c_str());
            if (r.chance(400))
            {
                say("File::remove");
                auto x = File::remove(path);
                VH_CHECK(x.has_value() && *x == (n.obj != nullptr), "unlink_result", "remove reports something else |%s", g_log.c_str());
                n.obj = nullptr;
            }
        }
        count("foreign_changes");
    }
    void cleanup()
    {
        for (auto& n : names) ::unlink(n->path.c_str());
    }
};

void history(uint64_t seed)
{
    World w(seed);
    g_log.clear();
    std::string id = fmt("%s_%llu", g_tag.c_str(), (unsigned long long)g_case);
    size_t per = w.r.range(1, 2);
    for (size_t i = 0; i < per; ++i)
        for (int k = 0; k < 4; ++k)
        {
            if (w.r.chance(300)) continue;
            auto n = std::make_unique<Name>();
            n->kind = Kind(k);
            n->name = k == SHM ? fmt("vo_%s_%zu", id.c_str(), i) : k == SEM ? fmt("vs_%s_%zu", id.c_str(), i) : fmt("f_%llu_%zu", (unsigned long long)g_case, i);
            n->path = k == SHM ? "/dev/shm/" + n->name : k == SEM ? "/dev/shm/sem." + n->name : k == LOCK ? g_dir + "/" + n->name + ".lock" : g_dir + "/" + n->name;
            w.names.push_back(std::move(n));
        }
    if (w.names.empty()) return;
    static const mode_t U[] = {0, 022, 077, 0777, 0027};
    w.um = U[w.r.below(5)];
    mode_t old = umask(w.um);
    w.baseFds = fds();
    size_t steps = w.r.range(5, 40);
    for (size_t i = 0; i < steps; ++i)
    {
        unsigned x = unsigned(w.r.below(100));
        if (x < 40) w.create();
        else if (x < 55 && !w.hs.empty()) w.destroy(w.r.below(w.hs.size()));
        else if (x < 62) w.move();
        else if (x < 69) w.moveAssign();
        else if (x < 88) w.use();
        else w.foreign();
        w.check("this step");
        count("steps");
    }
    while (!w.hs.empty())
    {
        w.destroy(w.r.below(w.hs.size()));
        w.check("this step");
    }
    umask(old);
    w.cleanup();
    vh::distinct(std::hash<std::string>()(g_log));
    vh::sample(g_log);
}

// names which are no file names never reach the system
void badNames(Rng& r)
{
    static const char* N[] = {"", ".", "..", "a/b", "/a", "a ", "ab.", "x/y/z", "a*b", "\x01", "a/", "a\nb"};
    const char* s = N[r.below(12)];
    VH_CHECK(PosixSharedMemoryBuilder().name(PosixSharedMemory::Name_t(TruncateToCapacity, s)).accessMode(AccessMode::ReadWrite).openMode(OpenMode::OpenOrCreate).size(16).filePermissions(perms::owner_all).create().has_error(), "bad_name", "shared memory with the name '%s' is created", s);
    VH_CHECK(PosixSharedMemoryObjectBuilder().name(PosixSharedMemory::Name_t(TruncateToCapacity, s)).accessMode(AccessMode::ReadWrite).openMode(OpenMode::PurgeAndCreate).memorySizeInBytes(16).permissions(perms::owner_all).create().has_error(), "bad_name", "shared memory with the name '%s' is created", s);
    optional<NamedSemaphore> o;
    auto x = NamedSemaphoreBuilder().name(NamedSemaphore::Name_t(TruncateToCapacity, s)).openMode(OpenMode::OpenOrCreate).create(o);
    VH_CHECK(x.has_error() && x.error() == SemaphoreError::INVALID_NAME && !o, "bad_name", "a semaphore with the name '%s' is created", s);
    auto l = FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, s)).path(FileLock::PathName_t(TruncateToCapacity, g_dir.c_str())).permission(perms::owner_all).create();
    VH_CHECK(l.has_error() && l.error() == FileLockError::INVALID_FILE_NAME, "bad_name", "a lock with the name '%s' is created", s);
    count("bad_names");
}

// memory blocks of a provider and allocations of the bump allocator lie inside the memory, aligned and apart from each other
struct Block : roudi::MemoryBlock
{
    uint64_t s, a;
    int announced{0}, destroyed{0};
    Block(uint64_t s_, uint64_t a_) : s(s_), a(a_) {}
    uint64_t size() const noexcept override { return s; }
    uint64_t alignment() const noexcept override { return a; }
    void onMemoryAvailable(not_null<void*>) noexcept override { ++announced; }
    void destroy() noexcept override { ++destroyed; }
};
void provider(Rng& r)
{
    std::string nm = fmt("vo_%s_%llu", g_tag.c_str(), (unsigned long long)g_case);
    std::string path = "/dev/shm/" + std::string(iceoryxResourcePrefix(DomainId{uint16_t(60000 + getpid() % 5000)}, ResourceType::ICEORYX_DEFINED).c_str()) + nm;
    std::vector<std::unique_ptr<Block>> bl;
    size_t base = fds();
    {
        roudi::PosixShmMemoryProvider p(ShmName_t(TruncateToCapacity, nm.c_str()), DomainId{uint16_t(60000 + getpid() % 5000)}, AccessMode::ReadWrite, OpenMode::PurgeAndCreate);
        size_t n = r.below(7);
        uint64_t maxA = 1;
        g_log = "provider";
        for (size_t i = 0; i < n; ++i)
        {
            uint64_t a = 1ull << r.below(r.chance(100) ? 15 : 13);
            bl.emplace_back(new Block(r.range(1, 9000), a));
            maxA = std::max(maxA, a);
            g_log += fmt(" %llu/%llu", (unsigned long long)bl.back()->s, (unsigned long long)a);
            VH_CHECK(!p.addMemoryBlock(bl.back().get()).has_error(), "block_refused", "a memory block is refused |%s", g_log.c_str());
        }
        Fault f;
        static const char* S[] = {"shm_open", "ftruncate", "mmap", "fstat"};
        if (r.chance(300)) f.fn = S[r.below(4)], f.nth = 1, f.err = ENOMEM;
        t_fault = &f;
        bool ok = !p.create().has_error();
        t_fault = nullptr;
        bool want = n && maxA <= 4096 && !f.hit;
        VH_CHECK(ok == want, "provider_result", "creating the memory %s |%s", ok ? "succeeds" : "fails", g_log.c_str());
        VH_CHECK(ok == p.isAvailable(), "provider_state", "the memory is %savailable |%s", ok ? "not " : "", g_log.c_str());
        struct stat st;
        VH_CHECK(ok == (::stat(path.c_str(), &st) == 0), "provider_file", "'%s' %s |%s", path.c_str(), ok ? "does not exist" : "remains", g_log.c_str());
        if (ok)
        {
            auto* b = static_cast<uint8_t*>(*p.baseAddress());
            VH_CHECK(uint64_t(st.st_size) >= p.size(), "provider_size", "the file is smaller than the memory |%s", g_log.c_str());
            p.announceMemoryAvailable();
            p.announceMemoryAvailable();
            std::vector<std::pair<uint8_t*, uint8_t*>> parts;
            for (auto& x : bl)
            {
                auto m = x->memory();
                VH_CHECK(m.has_value() && *m, "block_missing", "a block has no memory |%s", g_log.c_str());
                auto* q = static_cast<uint8_t*>(*m);
                VH_CHECK(uint64_t(q) % x->a == 0, "block_alignment", "a block is not aligned |%s", g_log.c_str());
                VH_CHECK(q >= b && q + x->s <= b + p.size(), "block_outside", "a block lies outside of the memory |%s", g_log.c_str());
                for (auto& o : parts) VH_CHECK(q >= o.second || q + x->s <= o.first, "block_overlap", "two blocks overlap |%s", g_log.c_str());
                for (uint64_t k = 0; k < x->s; ++k) VH_CHECK(!q[k], "block_not_zero", "a block is not zeroed |%s", g_log.c_str());
                memset(q, 0xff, x->s);
                parts.push_back({q, q + x->s});
                VH_CHECK(x->announced == 1, "announced", "a block was told %d times that its memory is available |%s", x->announced, g_log.c_str());
            }
            VH_CHECK(p.create().has_error() && p.addMemoryBlock(bl[0].get()).has_error(), "provider_twice", "the memory can be created twice |%s", g_log.c_str());
            if (r.chance(500))
            {
                VH_CHECK(!p.destroy().has_error() && !p.isAvailable(), "provider_destroy", "destroying fails |%s", g_log.c_str());
                VH_CHECK(p.destroy().has_error(), "provider_destroy", "destroying twice succeeds |%s", g_log.c_str());
            }
            count("provided");
        }
    }
    struct stat st;
    VH_CHECK(::stat(path.c_str(), &st) != 0, "provider_file", "'%s' remains |%s", path.c_str(), g_log.c_str());
    VH_CHECK(fds() == base, "descriptors", "file descriptors remain open |%s", g_log.c_str());
}
void bump(Rng& r)
{
    uint64_t len = r.chance(100) ? 0 : r.range(1, 4000), off = r.below(64);
    std::vector<uint8_t> mem(len + off);
    uint8_t* base = mem.data() + off;
    BumpAllocator a(base, len);
    std::vector<std::pair<uint64_t, uint64_t>> used;
    uint64_t pos = 0;
    g_log = fmt("bump %llu bytes at %llu", (unsigned long long)len, (unsigned long long)(uint64_t(base) % 4096));
    for (size_t i = 0, n = r.range(1, 30); i < n; ++i)
    {
        if (r.chance(50))
        {
            a.deallocate();
            used.clear();
            pos = 0;
            g_log += " deallocate";
            continue;
        }
        uint64_t al = 1ull << r.below(9), s = r.chance(100) ? 0 : r.chance(100) ? ~0ull - r.below(5000) : r.chance(60) ? (1ull << 63) + r.below(100) : r.below(r.chance(200) ? 4000 : 300);
        g_log += fmt(" %llu/%llu", (unsigned long long)s, (unsigned long long)al);
        auto x = a.allocate(s, al);
        __uint128_t addr = uint64_t(base) + pos;
        addr = (addr + al - 1) / al * al;
        __uint128_t end = addr + s;
        bool fits = s && end <= __uint128_t(uint64_t(base)) + len;
        VH_CHECK(x.has_value() == fits, fits ? "bump_refused" : "bump_outside", "an allocation %s |%s", fits ? "which fits is refused" : "which does not fit is granted", g_log.c_str());
        if (!fits)
        {
            VH_CHECK(x.error() == (s ? BumpAllocatorError::OUT_OF_MEMORY : BumpAllocatorError::REQUESTED_ZERO_SIZED_MEMORY), "error", "refused with another error |%s", g_log.c_str());
            continue;
        }
        uint64_t q = uint64_t(*x);
        VH_CHECK(q % al == 0 && q >= uint64_t(base) && q + s <= uint64_t(base) + len, "bump_outside", "an allocation is not aligned or lies outside |%s", g_log.c_str());
        for (auto& u : used) VH_CHECK(q >= u.second || q + s <= u.first, "bump_overlap", "allocations overlap |%s", g_log.c_str());
        memset(*x, 0xab, s);
        used.push_back({q, q + s});
        pos = q + s - uint64_t(base);
        count("allocations");
    }
}

// --------------------------------------------------------------------------------------------------------------- races
void race(uint64_t seed)
{
    Rng r(seed);
    Kind kind = Kind(r.below(4));
    std::string id = fmt("%s_%llu", g_tag.c_str(), (unsigned long long)g_case);
    std::string name = kind == SHM ? "vo_" + id : kind == SEM ? "vs_" + id : fmt("r_%llu", (unsigned long long)g_case);
    std::string path = kind == SHM ? "/dev/shm/" + name : kind == SEM ? "/dev/shm/sem." + name : kind == LOCK ? g_dir + "/" + name + ".lock" : g_dir + "/" + name;
    size_t nt = r.range(2, 4);
    bool keep = r.chance(500); // nobody ends before all have tried
    bool plain = r.chance(300); // only open or create
    struct T
    {
        std::vector<unsigned> plan;
        bool obj;
        uint64_t s;
    };
    std::vector<T> ts(nt);
    g_log = fmt("race for %s%s:", KN[kind], keep ? " keeping it" : "");
    for (auto& t : ts)
    {
        size_t n = keep ? 1 : r.range(1, 4);
        t.obj = kind == SHM && r.chance(300);
        t.s = r.next();
        g_log += " [";
        for (size_t i = 0; i < n; ++i) t.plan.push_back(plain ? 2 : unsigned(r.chance(500) ? 2 : r.chance(500) ? 0 : 3)), g_log += std::string(OM[t.plan.back()]) + " ";
        g_log += "]";
    }
    static int owners, holders, tried, exclusive;
    owners = holders = tried = exclusive = 0;
    auto inode = [&] {
        struct stat st;
        return ::stat(path.c_str(), &st) ? 0 : st.st_ino;
    };
    vs::setStuckHandler([&](const std::string& w) { vh::fail("stuck", w + " |" + g_log); });
    std::vector<std::function<void()>> bodies;
    size_t base = fds();
    for (size_t i = 0; i < nt; ++i)
        bodies.push_back([&, i] {
            T& t = ts[i];
            Rng q(t.s);
            for (unsigned o : t.plan)
            {
                bool ok = false, own = false;
                std::unique_ptr<PosixSharedMemory> shm;
                std::unique_ptr<PosixSharedMemoryObject> shmo;
                std::unique_ptr<File> file;
                std::unique_ptr<FileLock> lock;
                optional<NamedSemaphore> sem;
                if (kind == SHM && !t.obj)
                {
                    auto x = PosixSharedMemoryBuilder().name(PosixSharedMemory::Name_t(TruncateToCapacity, name.c_str())).accessMode(AccessMode::ReadWrite).openMode(om(o)).size(500).filePermissions(perms::owner_all).create();
                    if ((ok = x.has_value())) shm.reset(new PosixSharedMemory(std::move(*x))), own = shm->hasOwnership();
                }
                else if (kind == SHM)
                {
                    auto x = PosixSharedMemoryObjectBuilder().name(PosixSharedMemory::Name_t(TruncateToCapacity, name.c_str())).accessMode(AccessMode::ReadWrite).openMode(om(o)).memorySizeInBytes(500).permissions(perms::owner_all).create();
                    if ((ok = x.has_value())) shmo.reset(new PosixSharedMemoryObject(std::move(*x))), own = shmo->hasOwnership();
                }
                else if (kind == SEM)
                {
                    ok = !NamedSemaphoreBuilder().name(NamedSemaphore::Name_t(TruncateToCapacity, name.c_str())).openMode(om(o)).permissions(perms::owner_all).initialValue(3).create(sem).has_error();
                    if (ok && o == 0) own = true;
                }
                else if (kind == FILE_)
                {
                    auto pth = FilePath::create(string<platform::IOX_MAX_PATH_LENGTH>(TruncateToCapacity, path.c_str())).expect("path");
                    auto x = FileBuilder().permissions(perms::owner_all).access_mode(AccessMode::ReadWrite).open_mode(om(o)).create(pth);
                    if ((ok = x.has_value())) file.reset(new File(std::move(*x)));
                    if (ok && o == 0) ++exclusive;
                    VH_CHECK(exclusive <= 1, "two_exclusive", "two callers created the same file exclusively |%s", g_log.c_str());
                    if (o == 2) VH_CHECK(ok, "race_refused", "open or create fails |%s", g_log.c_str());
                }
                else
                {
                    auto x = FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, name.c_str())).path(FileLock::PathName_t(TruncateToCapacity, g_dir.c_str())).permission(perms::owner_all).create();
                    if ((ok = x.has_value()))
                    {
                        lock.reset(new FileLock(std::move(*x)));
                        ++holders;
                        VH_CHECK(holders == 1, "two_holders", "two hold the same lock |%s", g_log.c_str());
                        VH_CHECK(inode() != 0, "lock_file", "the lock file of a held lock does not exist |%s", g_log.c_str());
                        count("locked");
                    }
                    else
                        VH_CHECK(x.error() == FileLockError::LOCKED_BY_OTHER_PROCESS, "error", "refused with another error |%s", g_log.c_str());
                }
                ++tried;
                count(ok ? "race_won" : "race_lost");
                if (own)
                {
                    ++owners;
                    VH_CHECK(owners == 1, "two_owners", "two own the same object |%s", g_log.c_str());
                }
                ino_t mine = own ? inode() : 0;
                if (own) VH_CHECK(mine, "vanished", "the object of an owner does not exist |%s", g_log.c_str());
                if (keep && plain && kind != LOCK && !t.obj) VH_CHECK(ok, "race_refused", "open or create of %s fails although nobody removes it |%s", KN[kind], g_log.c_str());
                for (size_t k = q.below(8); k--;)
                {
                    vs::point();
                    if (own) VH_CHECK(inode() == mine, "vanished", "the object of an owner does not exist any more |%s", g_log.c_str());
                    if (lock) VH_CHECK(inode() != 0, "lock_file", "the lock file of a held lock does not exist |%s", g_log.c_str());
                }
                if (keep) vs::waitUntil([&] { return tried >= int(nt); }, "all tried");
                if (keep && plain && kind == SEM)
                {
                    // all of them use the same semaphore
                    VH_CHECK(!sem->post().has_error(), "post", "post fails |%s", g_log.c_str());
                    static int posted;
                    if (i == 0) posted = 0;
                    ++posted;
                    ++tried;
                    vs::waitUntil([&] { return tried >= int(2 * nt); }, "all posted");
                    if (i == 0)
                    {
                        size_t k = 0;
                        while (sem->tryWait().value()) ++k;
                        VH_CHECK(k == 3 + nt, "split_semaphore", "the semaphore has the value %zu instead of %zu |%s", k, 3 + nt, g_log.c_str());
                        ++tried;
                    }
                    vs::waitUntil([&] { return tried > int(2 * nt); }, "all counted");
                }
                if (own) --owners;
                if (lock) --holders;
                shm.reset();
                shmo.reset();
                sem.reset();
                file.reset();
                lock.reset();
            }
        });
    vs::Options opt;
    opt.seed = seed;
    auto res = vs::run(bodies, opt);
    vh::distinct(vh::mix(res.hash, std::hash<std::string>()(g_log)));
    if (kind != FILE_) VH_CHECK(!inode(), "remains", "%s remains after all handles have ended |%s", path.c_str(), g_log.c_str());
    ::unlink(path.c_str());
    VH_CHECK(fds() == base, "descriptors", "file descriptors remain open |%s", g_log.c_str());
    count("races");
    vh::sample(g_log);
}
} // namespace

int main(int argc, char** argv)
{
    vh::init(argc, argv, "a random history of OS objects compared with the state of the operating system after every step, or a race for one object under one schedule");
    iox::log::Logger::init(iox::log::LogLevel::Off);
    g_tag = fmt("%d", int(getpid()));
    std::string base = vh::ctx().scratch.empty() ? "/tmp" : vh::ctx().scratch;
    std::string tmpl = base + "/osobj_XXXXXX";
    std::vector<char> buf(tmpl.begin(), tmpl.end());
    buf.push_back(0);
    if (!mkdtemp(buf.data())) return 75;
    g_dir = buf.data();
    vh::ctx().trace = &g_log;
    fds();
    int rc = vh::runCases([&](uint64_t s, uint64_t i) {
        g_case = i;
        if (vh::ctx().mode == "race") return race(s);
        Rng r(s);
        unsigned x = unsigned(r.below(20));
        if (x == 0) badNames(r);
        else if (x == 1) provider(r);
        else if (x < 4) bump(r);
        else history(r.next());
    });
    rmdir(g_dir.c_str());
    return rc;
}
