// Simulator core.  Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.hpp"
#include <atomic>
#include <bit>
#include <cerrno>
#include <cxxabi.h>
#include <link.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

namespace sim
{
Shared * shared = nullptr;

u64 mix64( u64 x )
{
    x += 0x9e3779b97f4a7c15ull;
    x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull;
    return x ^ ( x >> 31 );
}
u64 Rng::next()
{
    u64 r = mix64( s );
    s += 0x9e3779b97f4a7c15ull;
    return r;
}

u64 Choices::below( u64 n )
{
    if( n == 0 )
        n = 1;
    u64 v;
    if( replay )
        v = taken.size() < script.size() ? script[taken.size()] % n : 0;
    else
        v = n == 1 ? 0 : rng.next() % n;
    taken.push_back( v );
    if( shared && taken.size() <= sizeof( shared->choices ) / sizeof( u64 ) )
    {
        shared->choices[taken.size() - 1] = v;
        shared->n_choices                 = taken.size();
    }
    return v;
}

const char * op_name( Op o )
{
    static const char * n[]
        = { "open", "read", "write", "close", "seek", "stat", "mkdir", "rename", "unlink", "stdout", "other" };
    return n[int( o )];
}

const char * counter_names[Counters::N]
    = { "crash", "torn_write", "open_error", "write_error", "short_write", "eintr", "short_read", "read_error",
        "early_eof", "close_error", "seek_error", "stat_error", "mkdir_error", "disk_full", "stdout_error", "alloc_failure",
        "rng_override", "clock_jump", "preemption", "restart", "corrupted_bytes", "stale_files" };
void count( Counters::K k, u64 n )
{
    if( shared )
        shared->cnt.v[k] += n;
}
void probe( int i, u64 n )
{
    if( shared )
        shared->probes[i] += n;
}
static u64 fnv( u64 h, const void * p, size_t n )
{
    auto * c = static_cast<const unsigned char *>( p );
    for( size_t i = 0; i < n; i++ )
        h = ( h ^ c[i] ) * 1099511628211ull;
    return h;
}
void state_hash( const void * p, size_t n )
{
    if( shared )
        shared->state_hash = fnv( shared->state_hash ? shared->state_hash : 1469598103934665603ull, p, n );
}
void state_hash( const string & s )
{
    state_hash( s.data(), s.size() );
}
void violate( const string & cls, const string & msg )
{
    throw Violation{ cls, msg };
}
void known_finding( const string & key )
{
    if( !shared )
        return;
    for( int i = 0; i < shared->n_known; i++ )
        if( key == shared->known[i] )
            return;
    if( shared->n_known < 8 )
        snprintf( shared->known[shared->n_known++], 160, "%s", key.c_str() );
}
string strf( const char * f, ... )
{
    va_list ap;
    va_start( ap, f );
    char b[4000];
    int n = vsnprintf( b, sizeof b, f, ap );
    va_end( ap );
    return string( b, size_t( n < 0 ? 0 : n < int( sizeof b ) ? n : int( sizeof b ) - 1 ) );
}
string fmt_double( double d )
{
    char b[64];
    for( int p = 1; p <= 17; p++ )
    {
        snprintf( b, sizeof b, "%.*g", p, d );
        if( strtod( b, nullptr ) == d )
            break;
    }
    return b;
}

// ---------------------------------------------------------------------------
const char * check_heap( struct Proc * p );
struct OpenFile
{
    std::shared_ptr<FileData> f;
    size_t off = 0;
    bool rd = false, wr = false, app = false, dir = false;
    string path;
    size_t dirpos = 0;
    vector<string> entries;
};

constexpr u64 N_KEPT = 48, N_OWNERS = 4096;
struct Proc
{
    World * w = nullptr;
    int id    = 0;
    pthread_t th{};
    sem_t go{};
    std::function<int()> body;
    Plan plan;
    ProcStats st;
    Result res;
    bool done = false;
    std::exception_ptr viol;
    std::map<int, OpenFile> fds;
    FILE * out = nullptr;
    Rng noise{ 1 }, cnoise{ 1 };
    u64 preempt_at = ~0ull, next_event = 0;
    bool yield_at_op = false;
    int no_preempt   = 0;
    i64 real_ns = 0, mono_ns = 0;
    size_t next_override = 0;
    u64 dir_handles      = 0;
    struct Block * blocks = nullptr; // what the system under test holds
    struct Block * kept[N_KEPT]{};
    u64 n_kept               = 0;
    i64 live_blocks = 0, live_bytes = 0;
    Holdings peak{};
    vector<vector<char>> image; // static data of the library, of a process of its own
    const char * heap_damage = nullptr;
    Rng hrng{ 1 };
    void arm()
    {
        next_event = plan.max_steps < preempt_at ? plan.max_steps : preempt_at;
    }
};

static __thread Proc * t_proc __attribute__( ( tls_model( "initial-exec" ) ) ) = nullptr;
static __thread bool t_in __attribute__( ( tls_model( "initial-exec" ) ) )     = false;
static sem_t g_driver;
static Proc * g_owners[N_OWNERS];
static std::map<FILE *, int> * g_files = nullptr; // FILE* of the simulated disk -> fd
static int g_next_fd                   = 1'000'000;

struct Out // simulator code on a simulated thread
{
    bool prev;
    Out() : prev( t_in ) { t_in = false; }
    ~Out() { t_in = prev; }
};

NoAllocFaults::NoAllocFaults()
{
    if( t_proc )
        prev = t_proc->plan.alloc_fail, t_proc->plan.alloc_fail = -1;
}
NoAllocFaults::~NoAllocFaults()
{
    if( t_proc )
        t_proc->plan.alloc_fail = prev;
}
Scope::Scope() : prev( t_in )
{
    t_in = t_proc != nullptr;
}
Scope::~Scope()
{
    t_in = prev;
}
Plan & current_plan()
{
    return t_proc->plan;
}
ProcStats & current_stats()
{
    return t_proc->st;
}

World::World( Choices & c ) : ch( c )
{
    fs["/"]  = Node{ true, nullptr };
    fs[cwd]  = Node{ true, nullptr };
}
void World::note( const string & s )
{
    seq++;
    hash = fnv( hash, s.data(), s.size() );
    if( verbose && log.size() < 6000 )
        log.push_back( s );
}
void World::hash_bytes( const void * p, size_t n )
{
    hash = fnv( hash, p, n );
}
static string parent_of( const string & p )
{
    auto i = p.rfind( '/' );
    return i == 0 || i == string::npos ? "/" : p.substr( 0, i );
}
void World::mkdirs( const string & path )
{
    for( size_t i = 1; i <= path.size(); i++ )
        if( i == path.size() || path[i] == '/' )
            fs.emplace( path.substr( 0, i ), Node{ true, nullptr } );
}
void World::put( const string & path, const string & bytes )
{
    mkdirs( parent_of( path ) );
    auto f   = std::make_shared<FileData>();
    f->bytes = bytes;
    fs[path] = Node{ false, f };
}
bool World::has( const string & path ) const
{
    auto it = fs.find( path );
    return it != fs.end() && !it->second.dir;
}
string World::get( const string & path ) const
{
    auto it = fs.find( path );
    return it == fs.end() || it->second.dir ? "" : it->second.file->bytes;
}
vector<string> World::list( const string & dir ) const
{
    vector<string> r;
    string pre = dir + "/";
    for( auto & [p, n] : fs )
        if( p.compare( 0, pre.size(), pre ) == 0 )
            r.push_back( p.substr( pre.size() ) );
    return r;
}
std::map<string, string> World::tree( const string & dir ) const
{
    std::map<string, string> r;
    for( auto & n : list( dir ) )
    {
        auto & node = fs.at( dir + "/" + n );
        r[n]        = node.dir ? "<dir>" : node.file->bytes;
    }
    return r;
}
void World::remove_tree( const string & dir )
{
    string pre = dir + "/";
    for( auto it = fs.begin(); it != fs.end(); )
        if( it->first == dir || it->first.compare( 0, pre.size(), pre ) == 0 )
            it = fs.erase( it );
        else
            ++it;
}
void World::copy_tree( const string & from, const string & to )
{
    mkdirs( to );
    for( auto & [n, b] : tree( from ) )
        if( fs.at( from + "/" + n ).dir )
            mkdirs( to + "/" + n );
        else
            put( to + "/" + n, b );
}

static string resolve( World & w, const char * p )
{
    string s = p[0] == '/' ? string( p ) : w.cwd + "/" + p;
    vector<string> parts;
    size_t i = 0;
    while( i < s.size() )
    {
        size_t j = s.find( '/', i );
        if( j == string::npos )
            j = s.size();
        string c = s.substr( i, j - i );
        if( c == ".." )
        {
            if( !parts.empty() )
                parts.pop_back();
        }
        else if( !c.empty() && c != "." )
            parts.push_back( c );
        i = j + 1;
    }
    string r;
    for( auto & c : parts )
        r += "/" + c;
    return r.empty() ? "/" : r;
}

// --- death, yielding --------------------------------------------------------
static void park_forever()
{
    sem_t never;
    sem_init( &never, 0, 0 );
    for( ;; )
        sem_wait( &never );
}
[[noreturn]] static void die( Proc * p, End e, int code, const char * what )
{
    t_in            = false;
    p->res.end      = e;
    p->res.code     = code;
    p->res.what     = what;
    p->done         = true;
    sem_post( &g_driver );
    park_forever();
    __builtin_unreachable();
}
static void yield_now( Proc * p )
{
    Out o;
    p->st.yields++;
    sem_post( &g_driver );
    while( sem_wait( &p->go ) != 0 ) {}
    ::stdout = p->out;
    ::stderr = p->out;
}
void maybe_yield()
{
    Proc * p = t_proc;
    if( p && ( p->preempt_at != ~0ull || p->yield_at_op ) )
        yield_now( p );
}
static void op_yield( Proc * p )
{
    if( p->yield_at_op && !p->no_preempt )
    {
        p->yield_at_op = false;
        yield_now( p );
    }
}
static void step_event( Proc * p )
{
    if( p->st.steps >= p->plan.max_steps )
        die( p, End::Stuck, 0, "no end within the step budget" );
    if( p->st.steps >= p->preempt_at && !p->no_preempt )
    {
        p->preempt_at = ~0ull;
        p->arm();
        yield_now( p );
    }
}

// what functions called next find in their uninitialised variables
static void __attribute__( ( noinline ) ) poison_stack( int byte )
{
    char below[1024];
    memset( below, byte, sizeof below );
    asm volatile( "" : : "r"( below ) : "memory" );
}
extern "C" void __attribute__( ( hot ) ) __sanitizer_cov_trace_pc()
{
    if( !t_in )
        return;
    Proc * p = t_proc;
    u64 s = ++p->st.steps;
    if( p->plan.fill_stack >= 0 && ( s < 1'000'000 || s % 256 == 0 ) )
        poison_stack( p->plan.fill_stack );
    auto pc  = reinterpret_cast<u64>( __builtin_return_address( 0 ) );
    shared->cov[( pc ^ ( pc >> 16 ) ) & 0xffff] = 1;
    if( s >= p->next_event )
        step_event( p );
}

extern "C" std::uint32_t sim_rng_draw( std::uint32_t v )
{
    if( !t_in )
        return v;
    Proc * p = t_proc;
    u64 n    = p->st.draws++;
    auto & o = p->plan.overrides;
    while( p->next_override < o.size() && o[p->next_override].draw < n )
        p->next_override++;
    if( p->next_override < o.size() && o[p->next_override].draw == n )
    {
        v = o[p->next_override].value;
        count( Counters::RngOverride );
    }
    if( p->yield_at_op )
        op_yield( p );
    return v;
}
extern "C" std::uint32_t sim_random_device_value()
{
    if( !t_in )
        return 1;
    Proc * p = t_proc;
    u64 x    = p->plan.device_value;
    if( p->st.clock_reads == 0 )
        return std::uint32_t( x );
    return std::uint32_t( x );
}

// --- operations -------------------------------------------------------------
struct Verdict
{
    int err      = 0;
    bool eof     = false;
    bool crash   = false; // write torn, then die
    bool partial = false;
    size_t limit = ~size_t( 0 ); // short transfer
};

static void advance( Proc * p, i64 ns )
{
    p->real_ns += ns;
    p->mono_ns += ns;
    p->st.sim_ns += u64( ns );
    if( shared )
        shared->sim_ns += u64( ns );
}

static Verdict op_begin( Proc * p, Op op, const string & path, size_t len )
{
    op_yield( p );
    Verdict v;
    u64 idx = p->st.ops++;
    advance( p, 20'000 );
    if( i64( idx ) == p->plan.crash_op )
    {
        count( Counters::Crash );
        if( op == Op::Write && len > 0 && p->plan.crash_frac > 0 )
        {
            v.crash = true;
            v.limit = size_t( double( len ) * double( p->plan.crash_frac ) / 256.0 );
            if( v.limit > 0 && v.limit < len )
                count( Counters::TornWrite );
            return v;
        }
        p->w->note( strf( "p%d KILL before op %llu %s %s", p->id, (unsigned long long)idx, op_name( op ), path.c_str() ) );
        die( p, End::Killed, 0, "killed" );
    }
    for( auto & f : p->plan.faults )
    {
        if( f.op != op || ( f.fired && !f.sticky ) )
            continue;
        if( !f.path.empty() && path.find( f.path ) == string::npos )
            continue;
        bool hit = f.sticky ? f.seen >= f.nth : f.seen == f.nth;
        f.seen++;
        if( !hit )
            continue;
        f.fired = true;
        switch( op )
        {
            case Op::Open: count( Counters::OpenErr ); break;
            case Op::Write: count( f.err == ENOSPC ? Counters::Enospc : Counters::WriteErr ); break;
            case Op::Read: count( f.eof ? Counters::EarlyEof : Counters::ReadErr ); break;
            case Op::Close: count( Counters::CloseErr ); break;
            case Op::Seek: count( Counters::SeekErr ); break;
            case Op::Stat: count( Counters::StatErr ); break;
            case Op::Mkdir: count( Counters::MkdirErr ); break;
            case Op::Stdout: count( Counters::StdoutErr ); break;
            default: break;
        }
        v.err     = f.err;
        v.eof     = f.eof;
        v.partial = f.partial;
        return v;
    }
    if( p->plan.noise_seed && ( op == Op::Read || op == Op::Write ) && len > 0 )
    {
        if( int( p->noise.below( 256 ) ) < p->plan.p_eintr )
        {
            count( Counters::Eintr );
            v.err = EINTR;
            return v;
        }
        if( len > 1 && int( p->noise.below( 256 ) ) < p->plan.p_short )
        {
            count( op == Op::Read ? Counters::ShortRead : Counters::ShortWrite );
            v.limit = 1 + p->noise.below( len - 1 );
        }
        if( p->noise.below( 16 ) == 0 )
            advance( p, i64( p->noise.below( 3'000'000'000ull ) ) ); // slow disk
    }
    return v;
}

static void ev( Proc * p, Op op, const string & path, i64 a, i64 r )
{
    World & w = *p->w;
    if( w.verbose )
    {
        w.note( strf( "p%d %s %s %lld -> %lld", p->id, op_name( op ), path.c_str(), (long long)a, (long long)r ) );
        return;
    }
    // same bytes into the hash as note() would
    w.note( strf( "p%d %s %s %lld -> %lld", p->id, op_name( op ), path.c_str(), (long long)a, (long long)r ) );
}

static bool real_path_ok( const char * path ) // read-only system files pass through
{
    return !strncmp( path, "/usr/", 5 ) || !strncmp( path, "/etc/", 5 );
}

static int do_open( Proc * p, const char * cpath, int flags )
{
    World & w   = *p->w;
    string path = resolve( w, cpath );
    bool wr     = ( flags & O_ACCMODE ) != O_RDONLY;
    p->st.opens++;
    p->st.wopens += wr;
    auto v = op_begin( p, Op::Open, path, 0 );
    if( v.err )
    {
        ev( p, Op::Open, path, flags, -v.err );
        errno = v.err;
        return -1;
    }
    auto it = w.fs.find( path );
    int err = 0;
    if( it == w.fs.end() )
    {
        auto par = w.fs.find( parent_of( path ) );
        if( !( flags & O_CREAT ) )
            err = ENOENT;
        else if( par == w.fs.end() )
            err = ENOENT;
        else if( !par->second.dir )
            err = ENOTDIR;
        else
        {
            w.fs[path] = Node{ false, std::make_shared<FileData>() };
            it         = w.fs.find( path );
        }
    }
    else if( ( flags & O_CREAT ) && ( flags & O_EXCL ) )
        err = EEXIST;
    else if( it->second.dir && wr )
        err = EISDIR;
    else if( !it->second.dir && ( flags & O_DIRECTORY ) )
        err = ENOTDIR;
    if( err )
    {
        ev( p, Op::Open, path, flags, -err );
        errno = err;
        return -1;
    }
    OpenFile o;
    o.path = path;
    o.dir  = it->second.dir;
    o.f    = it->second.file;
    o.rd   = ( flags & O_ACCMODE ) != O_WRONLY;
    o.wr   = wr;
    o.app  = flags & O_APPEND;
    if( wr && ( flags & O_TRUNC ) )
        o.f->bytes.clear();
    int fd     = g_next_fd++;
    p->fds[fd] = o;
    p->peak.files = std::max( p->peak.files, i64( p->fds.size() ) + i64( p->dir_handles ) );
    if( wr )
        w.file_events.push_back( { w.seq, 0, path } );
    ev( p, Op::Open, path, flags, 0 );
    return fd;
}

static u64 disk_used( World & w )
{
    u64 t = 0;
    for( auto & [n, x] : w.fs )
        if( !x.dir )
            t += x.file->bytes.size();
    return t;
}

static ssize_t do_write( Proc * p, int fd, const char * b, size_t n )
{
    auto it = p->fds.find( fd );
    if( it == p->fds.end() || !it->second.wr )
    {
        errno = EBADF;
        return -1;
    }
    auto & o = it->second;
    p->st.writes++;
    auto v = op_begin( p, Op::Write, o.path, n );
    size_t k = n < v.limit ? n : v.limit;
    if( v.err && v.partial )
        k = n / 2;
    else if( v.err )
    {
        ev( p, Op::Write, o.path, i64( n ), -v.err );
        errno = v.err;
        return -1;
    }
    if( p->plan.disk_capacity >= 0 )
    {
        u64 used = disk_used( *p->w ), cap = u64( p->plan.disk_capacity );
        u64 room = used < cap ? cap - used : 0;
        // bytes overwritten in place need no room (all writes here append)
        if( room < k )
        {
            count( Counters::Enospc );
            if( room == 0 )
            {
                ev( p, Op::Write, o.path, i64( n ), -ENOSPC );
                errno = ENOSPC;
                return -1;
            }
            k = room;
        }
    }
    if( o.app )
        o.off = o.f->bytes.size();
    if( o.f->bytes.size() < o.off + k )
        o.f->bytes.resize( o.off + k, '\0' );
    memcpy( o.f->bytes.data() + o.off, b, k );
    o.off += k;
    ev( p, Op::Write, o.path, i64( n ), i64( k ) );
    p->w->hash_bytes( b, k );
    if( v.crash )
    {
        p->w->note( strf( "p%d KILL inside write of %zu bytes to %s after %zu", p->id, n, o.path.c_str(), k ) );
        die( p, End::Killed, 0, "killed" );
    }
    if( v.err && v.partial )
    {
        if( k > 0 && n > 1 )
            return ssize_t( k ); // the next call fails when the fault is sticky
        errno = v.err;
        return -1;
    }
    return ssize_t( k );
}

static ssize_t do_read( Proc * p, int fd, char * b, size_t n )
{
    auto it = p->fds.find( fd );
    if( it == p->fds.end() || !it->second.rd )
    {
        errno = EBADF;
        return -1;
    }
    auto & o = it->second;
    p->st.reads++;
    auto v = op_begin( p, Op::Read, o.path, n );
    if( o.dir )
        v.err = EISDIR;
    if( v.err )
    {
        ev( p, Op::Read, o.path, i64( n ), -v.err );
        errno = v.err;
        return -1;
    }
    size_t left = o.off < o.f->bytes.size() ? o.f->bytes.size() - o.off : 0;
    size_t k    = n < left ? n : left;
    if( v.eof )
        k = 0;
    if( k > v.limit )
        k = v.limit;
    memcpy( b, o.f->bytes.data() + o.off, k );
    o.off += k;
    ev( p, Op::Read, o.path, i64( n ), i64( k ) );
    return ssize_t( k );
}

static int do_close( Proc * p, int fd )
{
    auto it = p->fds.find( fd );
    if( it == p->fds.end() )
    {
        errno = EBADF;
        return -1;
    }
    string path = it->second.path;
    bool wr     = it->second.wr;
    auto f      = it->second.f;
    p->st.closes++;
    auto v = op_begin( p, Op::Close, path, 0 );
    p->fds.erase( fd );
    if( v.err )
    {
        // a write-back error reported at close: what was buffered is lost
        if( wr && f && v.partial )
            f->bytes.resize( f->bytes.size() / 2 );
        ev( p, Op::Close, path, 0, -v.err );
        errno = v.err;
        return -1;
    }
    if( wr )
        p->w->file_events.push_back( { p->w->seq, 1, path } );
    ev( p, Op::Close, path, 0, 0 );
    return 0;
}

static i64 do_seek( Proc * p, int fd, i64 off, int wh )
{
    auto it = p->fds.find( fd );
    if( it == p->fds.end() )
    {
        errno = EBADF;
        return -1;
    }
    auto & o = it->second;
    auto v   = op_begin( p, Op::Seek, o.path, 0 );
    if( v.err )
    {
        ev( p, Op::Seek, o.path, off, -v.err );
        errno = v.err;
        return -1;
    }
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? i64( o.off ) : ( o.dir ? 0 : i64( o.f->bytes.size() ) );
    if( base + off < 0 )
    {
        errno = EINVAL;
        return -1;
    }
    o.off = size_t( base + off );
    ev( p, Op::Seek, o.path, off, i64( o.off ) );
    return i64( o.off );
}

static void fill_stat( struct stat * s, const Node & n )
{
    memset( s, 0, sizeof *s );
    s->st_mode    = n.dir ? ( S_IFDIR | 0755 ) : ( S_IFREG | 0644 );
    s->st_nlink   = 1;
    s->st_size    = n.dir ? 4096 : off_t( n.file->bytes.size() );
    s->st_blksize = 4096;
}
static int do_stat( Proc * p, const char * cpath, struct stat * s )
{
    string path = resolve( *p->w, cpath );
    auto v      = op_begin( p, Op::Stat, path, 0 );
    if( v.err )
    {
        ev( p, Op::Stat, path, 0, -v.err );
        errno = v.err;
        return -1;
    }
    auto it = p->w->fs.find( path );
    if( it == p->w->fs.end() )
    {
        ev( p, Op::Stat, path, 0, -ENOENT );
        errno = ENOENT;
        return -1;
    }
    fill_stat( s, it->second );
    ev( p, Op::Stat, path, 0, 0 );
    return 0;
}
static int do_mkdir( Proc * p, const char * cpath )
{
    string path = resolve( *p->w, cpath );
    auto v      = op_begin( p, Op::Mkdir, path, 0 );
    int err     = v.err;
    if( !err )
    {
        auto par = p->w->fs.find( parent_of( path ) );
        if( p->w->fs.count( path ) )
            err = EEXIST;
        else if( par == p->w->fs.end() )
            err = ENOENT;
        else if( !par->second.dir )
            err = ENOTDIR;
    }
    ev( p, Op::Mkdir, path, 0, -err );
    if( err )
    {
        errno = err;
        return -1;
    }
    p->w->fs[path] = Node{ true, nullptr };
    return 0;
}
static int do_unlink( Proc * p, const char * cpath )
{
    string path = resolve( *p->w, cpath );
    auto v      = op_begin( p, Op::Unlink, path, 0 );
    int err     = v.err;
    auto it     = p->w->fs.find( path );
    if( !err && it == p->w->fs.end() )
        err = ENOENT;
    if( !err && it->second.dir )
    {
        string pre = path + "/";
        auto nx    = p->w->fs.lower_bound( pre );
        if( nx != p->w->fs.end() && nx->first.compare( 0, pre.size(), pre ) == 0 )
            err = ENOTEMPTY;
    }
    ev( p, Op::Unlink, path, 0, -err );
    if( err )
    {
        errno = err;
        return -1;
    }
    p->w->fs.erase( it );
    return 0;
}
static int do_rename( Proc * p, const char * a, const char * b )
{
    string pa = resolve( *p->w, a ), pb = resolve( *p->w, b );
    auto v  = op_begin( p, Op::Rename, pa, 0 );
    int err = v.err;
    auto it = p->w->fs.find( pa );
    if( !err && it == p->w->fs.end() )
        err = ENOENT;
    ev( p, Op::Rename, pa + " " + pb, 0, -err );
    if( err )
    {
        errno = err;
        return -1;
    }
    Node n = it->second;
    p->w->fs.erase( it );
    p->w->fs[pb] = n;
    p->w->file_events.push_back( { p->w->seq, 1, pb } );
    return 0;
}

// stdio on the simulated disk
static ssize_t ck_read( void * c, char * b, size_t n )
{
    ssize_t r = -1;
    if( t_proc )
        while( ( r = do_read( t_proc, int( reinterpret_cast<intptr_t>( c ) ), b, n ) ) < 0 && errno == EINTR )
            ;
    return r;
}
static ssize_t ck_write( void * c, const char * b, size_t n )
{
    // stdio writes on until everything is written or an error occurs
    size_t done = 0;
    while( done < n )
    {
        ssize_t r = t_proc ? do_write( t_proc, int( reinterpret_cast<intptr_t>( c ) ), b + done, n - done ) : -1;
        if( r < 0 && t_proc && errno == EINTR )
            continue;
        if( r <= 0 )
            break;
        done += size_t( r );
    }
    return ssize_t( done );
}
static int ck_seek( void * c, off64_t * o, int wh )
{
    i64 r = t_proc ? do_seek( t_proc, int( reinterpret_cast<intptr_t>( c ) ), *o, wh ) : -1;
    if( r < 0 )
        return -1;
    *o = r;
    return 0;
}
static int ck_close( void * c )
{
    return t_proc ? do_close( t_proc, int( reinterpret_cast<intptr_t>( c ) ) ) : 0;
}
static FILE * wrap_fd( int fd, const char * mode )
{
    cookie_io_functions_t fns{ ck_read, ck_write, ck_seek, ck_close };
    FILE * f = fopencookie( reinterpret_cast<void *>( intptr_t( fd ) ), mode, fns );
    if( !g_files )
        g_files = new std::map<FILE *, int>;
    ( *g_files )[f] = fd;
    return f;
}
static ssize_t out_write( void * c, const char * b, size_t n )
{
    Proc * p = static_cast<Proc *>( c );
    Out o;
    p->st.stdouts++;
    auto v = op_begin( p, Op::Stdout, "stdout", n );
    if( v.err )
    {
        ev( p, Op::Stdout, "stdout", i64( n ), -v.err );
        errno = v.err;
        return 0;
    }
    if( p->res.out.size() < ( 8u << 20 ) )
        p->res.out.append( b, n );
    p->w->file_events.push_back( { p->w->seq, 2, string( b, n ) } );
    // (timings are printed, so the text itself is not part of the event hash)
    p->w->note( strf( "p%d stdout", p->id ) );
    return ssize_t( n );
}

// --- running ---------------------------------------------------------------
static void * proc_main( void * a )
{
    Proc * p = static_cast<Proc *>( a );
    stack_t ss{};
    ss.ss_size = 256 * 1024;
    ss.ss_sp   = malloc( ss.ss_size );
    sigaltstack( &ss, nullptr );
    while( sem_wait( &p->go ) != 0 ) {}
    ::stdout = p->out;
    ::stderr = p->out;
    t_proc = p;
    int rc = 0;
    try
    {
        rc = p->body();
    }
    catch( const Violation & )
    {
        t_in    = false;
        p->viol = std::current_exception();
    }
    die( p, End::Exit, rc, "" );
    return nullptr;
}

static void on_signal( int sig )
{
    if( t_proc )
    {
        Proc * p = t_proc;
        if( t_in || sig == SIGSEGV )
        {
            p->res.end  = End::Signal;
            p->res.code = sig;
            p->done     = true;
            t_in        = false;
            sem_post( &g_driver );
            park_forever();
        }
    }
    signal( sig, SIG_DFL );
    raise( sig );
}
static void on_terminate()
{
    Proc * p = t_proc;
    if( !p )
        abort();
    t_in = false;
    string what = "terminate called";
    if( auto e = std::current_exception() )
    {
        try
        {
            std::rethrow_exception( e );
        }
        catch( const std::exception & x )
        {
            what = string( typeid( x ).name() ) + ": " + x.what();
        }
        catch( ... )
        {
            what = "unknown exception";
        }
    }
    die( p, End::Uncaught, 0, what.c_str() );
}
static void install()
{
    static bool once = false;
    if( once )
        return;
    once = true;
    sem_init( &g_driver, 0, 0 );
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for( int s : { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT } )
        sigaction( s, &sa, nullptr );
    std::set_terminate( on_terminate );
}

// A process starts with the static data of the program as loaded: the writable
// segments of the system under test are put back to their initial contents.
struct Seg
{
    char * at;
    vector<char> bytes;
};
static vector<Seg> g_image;
void save_image( const char * lib )
{
    dl_iterate_phdr(
        []( dl_phdr_info * i, size_t, void * a ) -> int
        {
            if( !i->dlpi_name || !strstr( i->dlpi_name, static_cast<const char *>( a ) ) )
                return 0;
            u64 relro_lo = 0, relro_hi = 0;
            for( int k = 0; k < i->dlpi_phnum; k++ )
                if( i->dlpi_phdr[k].p_type == PT_GNU_RELRO )
                {
                    relro_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                    relro_hi = ( relro_lo + i->dlpi_phdr[k].p_memsz ) & ~4095ull;
                }
            for( int k = 0; k < i->dlpi_phnum; k++ )
            {
                auto & h = i->dlpi_phdr[k];
                if( h.p_type != PT_LOAD || !( h.p_flags & PF_W ) )
                    continue;
                u64 lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
                if( lo >= relro_lo && lo < relro_hi )
                    lo = relro_hi;
                if( lo < hi )
                    g_image.push_back(
                        { reinterpret_cast<char *>( lo ),
                          vector<char>( reinterpret_cast<char *>( lo ), reinterpret_cast<char *>( hi ) ) } );
            }
            return 0;
        },
        const_cast<char *>( lib ) );
}
static void fresh_image()
{
    for( auto & s : g_image )
        memcpy( s.at, s.bytes.data(), s.bytes.size() );
    srand( 1 );
}

static void store_image( vector<vector<char>> & to )
{
    to.resize( g_image.size() );
    for( size_t i = 0; i < g_image.size(); i++ )
        to[i].assign( g_image[i].at, g_image[i].at + g_image[i].bytes.size() );
}
static void load_image( const vector<vector<char>> & from )
{
    for( size_t i = 0; i < g_image.size(); i++ )
        memcpy( g_image[i].at, from[i].data(), from[i].size() );
}

string Result::describe() const
{
    static const char * n[] = { "running", "exit", "uncaught exception", "signal", "killed", "assertion", "stuck" };
    return strf( "%s %d %s", n[int( end )], code, what.c_str() );
}

vector<Result> run_procs(
    World & w, const vector<std::function<int()>> & bodies, const vector<Plan> & plans, u64 preempt_mean, bool own_data )
{
    install();
    fresh_image();
    FILE *so = ::stdout, *se = ::stderr;
    vector<Proc *> ps;
    static int next_id = 0;
    for( size_t i = 0; i < bodies.size(); i++ )
    {
        auto * p = new Proc;
        p->w     = &w;
        p->id    = next_id++;
        p->body  = bodies[i];
        p->plan  = plans[i];
        p->noise = Rng( plans[i].noise_seed );
        p->cnoise = Rng( plans[i].clock_noise );
        p->hrng   = Rng( plans[i].heap_seed );
        g_owners[u64( p->id + 1 ) % N_OWNERS] = p;
        p->real_ns = plans[i].clock_base;
        p->mono_ns = 1'000'000'000'000ll;
        sem_init( &p->go, 0, 0 );
        cookie_io_functions_t fns{ nullptr, out_write, nullptr, nullptr };
        p->out = fopencookie( p, "w", fns );
        setvbuf( p->out, nullptr, _IONBF, 0 );
        p->arm();
        pthread_attr_t at;
        pthread_attr_init( &at );
        size_t sz = ( plans[i].stack_size + 0xffff ) & ~size_t( 0xffff );
        // at a fixed address, so that addresses of variables are the same when the run is repeated
        static uintptr_t next_stack = 0x300000000000ull;
        void * st = mmap( reinterpret_cast<void *>( next_stack ), sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
        next_stack += ( sz + 0x200000 ) & ~uintptr_t( 0xfffff );
        mprotect( st, 4096, PROT_NONE );
        if( plans[i].fill_stack >= 0 )
            memset( static_cast<char *>( st ) + 4096 + sz - 65536, plans[i].fill_stack, 65536 );
        pthread_attr_setstack( &at, static_cast<char *>( st ) + 4096, sz );
        if( pthread_create( &p->th, &at, proc_main, p ) != 0 )
        {
            fprintf( se, "pthread_create failed\n" );
            _exit( 98 );
        }
        ps.push_back( p );
        w.note( strf( "p%d start", p->id ) );
        if( shared )
            shared->procs++;
    }
    u64 switches = 0;
    Proc * last  = nullptr;
    for( ;; )
    {
        vector<Proc *> alive;
        for( auto * p : ps )
            if( !p->done )
                alive.push_back( p );
        if( alive.empty() )
            break;
        Proc * p = alive[0];
        if( alive.size() > 1 && preempt_mean )
        {
            if( switches < 300 )
            {
                p          = alive[w.ch.below( alive.size() )];
                u64 e      = w.ch.below( 6 );
                u64 q      = 0;
                p->yield_at_op = false;
                p->preempt_at  = ~0ull;
                if( e == 5 )
                    p->yield_at_op = true;
                else if( e > 0 )
                {
                    static const u64 span[] = { 0, 12, 160, 2000, 24000 };
                    q                       = 1 + w.ch.below( span[e] );
                    p->preempt_at           = p->st.steps + q;
                }
                p->arm();
                u64 h[2]     = { u64( p->id ), e * 1000000 + q };
                w.sched_hash = fnv( w.sched_hash, h, sizeof h );
                if( e )
                    count( Counters::Preempt );
            }
            else
            {
                p->preempt_at  = ~0ull;
                p->yield_at_op = false;
                p->arm();
            }
        }
        switches++;
        if( own_data && p != last )
        {
            if( last )
                store_image( last->image );
            if( p->image.empty() )
                fresh_image();
            else
                load_image( p->image );
            last = p;
        }
        sem_post( &p->go );
        while( sem_wait( &g_driver ) != 0 ) {}
        if( alive.size() > 1 )
            w.note( strf( "p%d ran to step %llu", p->id, (unsigned long long)p->st.steps ) );
    }
    ::stdout = so;
    ::stderr = se;
    for( auto * p : ps )
        if( p->viol )
            std::rethrow_exception( p->viol );
    vector<Result> r;
    for( auto * p : ps )
    {
        p->res.st = p->st;
        if( p->res.end == End::Signal )
            p->res.what = strsignal( p->res.code );
        if( !p->heap_damage && p->res.end != End::Signal && p->res.end != End::Assert )
            p->heap_damage = check_heap( p );
        if( p->heap_damage && p->res.end != End::Signal && p->res.end != End::Assert )
            p->res.end = End::Assert, p->res.what = p->heap_damage;
        w.note( strf( "p%d end %d %d", p->id, int( p->res.end ), p->res.code ) );
        if( w.verbose && !p->res.what.empty() )
            w.log.push_back( "   " + p->res.what );
        if( shared )
        {
            shared->steps += p->st.steps;
            shared->draws += p->st.draws;
            shared->ops += p->st.ops;
        }
        r.push_back( p->res );
    }
    return r;
}
Result run_proc( World & w, const std::function<int()> & body, const Plan & plan )
{
    return run_procs( w, { body }, { plan }, 0 )[0];
}

static Proc * active()
{
    return t_in ? t_proc : nullptr;
}
static Proc * current()
{
    return t_proc;
}
} // namespace sim

// ============================ seams at the libc boundary =====================
using namespace sim;
#define REAL( name, ... )                                                      \
    static auto real = reinterpret_cast<decltype( &::name )>( dlsym( RTLD_NEXT, #name ) )

static bool is_sim_fd( int fd )
{
    return fd >= 1'000'000;
}
static int mode_flags( const char * m )
{
    int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for( const char * c = m + 1; *c; c++ )
    {
        if( *c == '+' )
            f = ( f & ~O_ACCMODE ) | O_RDWR;
        if( *c == 'x' )
            f |= O_EXCL;
    }
    return f;
}
namespace std
{
[[noreturn]] void __glibcxx_assert_fail( const char * file, int line, const char * func, const char * cond ) noexcept
{
    Proc * p = current();
    static char b[1500];
    const char * base = file ? strrchr( file, '/' ) : nullptr;
    snprintf( b, sizeof b, "%s:%d %.300s: %s", base ? base + 1 : "?", line, func ? func : "", cond ? cond : "" );
    if( p )
        die( p, End::Assert, 0, b );
    fprintf( stderr, "harness assertion: %s\n", b );
    abort();
}
} // namespace std

extern "C"
{
FILE * fopen( const char * path, const char * mode )
{
    REAL( fopen );
    Proc * p = active();
    if( !p )
        return real( path, mode );
    Out o;
    if( mode[0] == 'r' && !strchr( mode, '+' ) && real_path_ok( path ) )
        return real( path, mode );
    int fd = do_open( p, path, mode_flags( mode ) );
    return fd < 0 ? nullptr : wrap_fd( fd, mode );
}
FILE * fopen64( const char * path, const char * mode )
{
    return fopen( path, mode );
}
FILE * fdopen( int fd, const char * mode ) noexcept
{
    REAL( fdopen );
    Proc * p = active();
    if( !p || !is_sim_fd( fd ) )
        return real( fd, mode );
    Out o;
    return wrap_fd( fd, mode );
}
int fileno( FILE * f ) noexcept
{
    REAL( fileno );
    if( current() )
    {
        Out o;
        if( g_files )
        {
            auto it = g_files->find( f );
            if( it != g_files->end() )
                return it->second;
        }
        if( f == current()->out )
            return 1;
    }
    return real( f );
}
int fclose( FILE * f )
{
    REAL( fclose );
    if( !current() )
        return real( f );
    Out o;
    if( g_files )
        g_files->erase( f );
    return real( f );
}
int open( const char * path, int flags, ... )
{
    static auto real = reinterpret_cast<int ( * )( const char *, int, ... )>( dlsym( RTLD_NEXT, "open" ) );
    va_list ap;
    va_start( ap, flags );
    int mode = ( flags & O_CREAT ) ? va_arg( ap, int ) : 0;
    va_end( ap );
    Proc * p = active();
    if( !p )
        return real( path, flags, mode );
    Out o;
    if( ( flags & O_ACCMODE ) == O_RDONLY && real_path_ok( path ) )
        return real( path, flags, mode );
    return do_open( p, path, flags );
}
int open64( const char * path, int flags, ... )
{
    va_list ap;
    va_start( ap, flags );
    int mode = ( flags & O_CREAT ) ? va_arg( ap, int ) : 0;
    va_end( ap );
    return open( path, flags, mode );
}
int openat( int dfd, const char * path, int flags, ... )
{
    static auto real = reinterpret_cast<int ( * )( int, const char *, int, ... )>( dlsym( RTLD_NEXT, "openat" ) );
    va_list ap;
    va_start( ap, flags );
    int mode = ( flags & O_CREAT ) ? va_arg( ap, int ) : 0;
    va_end( ap );
    Proc * p = active();
    if( !p )
        return real( dfd, path, flags, mode );
    Out o;
    if( path[0] != '/' && dfd != AT_FDCWD && is_sim_fd( dfd ) )
        return do_open( p, ( p->fds[dfd].path + "/" + path ).c_str(), flags );
    return do_open( p, path, flags );
}
int openat64( int dfd, const char * path, int flags, ... )
{
    va_list ap;
    va_start( ap, flags );
    int mode = ( flags & O_CREAT ) ? va_arg( ap, int ) : 0;
    va_end( ap );
    return openat( dfd, path, flags, mode );
}
int creat( const char * path, mode_t m )
{
    return open( path, O_CREAT | O_WRONLY | O_TRUNC, int( m ) );
}
ssize_t read( int fd, void * b, size_t n )
{
    REAL( read );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, b, n );
    Out o;
    return do_read( current(), fd, static_cast<char *>( b ), n );
}
ssize_t write( int fd, const void * b, size_t n )
{
    REAL( write );
    if( active() && ( fd == 1 || fd == 2 ) )
        return ssize_t( out_write( current(), static_cast<const char *>( b ), n ) );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, b, n );
    Out o;
    return do_write( current(), fd, static_cast<const char *>( b ), n );
}
ssize_t writev( int fd, const struct iovec * v, int c )
{
    REAL( writev );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, v, c );
    Out o;
    string s;
    for( int i = 0; i < c; i++ )
        s.append( static_cast<const char *>( v[i].iov_base ), v[i].iov_len );
    return do_write( current(), fd, s.data(), s.size() );
}
ssize_t readv( int fd, const struct iovec * v, int c )
{
    REAL( readv );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, v, c );
    Out o;
    return c ? do_read( current(), fd, static_cast<char *>( v[0].iov_base ), v[0].iov_len ) : 0;
}
ssize_t pread( int fd, void * b, size_t n, off_t off )
{
    REAL( pread );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, b, n, off );
    Out o;
    auto & of  = current()->fds[fd];
    size_t old = of.off;
    of.off     = size_t( off );
    auto r     = do_read( current(), fd, static_cast<char *>( b ), n );
    of.off     = old;
    return r;
}
ssize_t pwrite( int fd, const void * b, size_t n, off_t off )
{
    REAL( pwrite );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, b, n, off );
    Out o;
    auto & of  = current()->fds[fd];
    size_t old = of.off;
    of.off     = size_t( off );
    auto r     = do_write( current(), fd, static_cast<const char *>( b ), n );
    of.off     = old;
    return r;
}
int close( int fd )
{
    REAL( close );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd );
    Out o;
    return do_close( current(), fd );
}
off_t lseek( int fd, off_t off, int wh ) noexcept
{
    REAL( lseek );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, off, wh );
    Out o;
    return do_seek( current(), fd, off, wh );
}
off64_t lseek64( int fd, off64_t off, int wh ) noexcept
{
    return lseek( fd, off, wh );
}
int fsync( int fd )
{
    REAL( fsync );
    return is_sim_fd( fd ) ? 0 : real( fd );
}
int fdatasync( int fd )
{
    REAL( fdatasync );
    return is_sim_fd( fd ) ? 0 : real( fd );
}
int ftruncate( int fd, off_t n ) noexcept
{
    REAL( ftruncate );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, n );
    Out o;
    auto & of = current()->fds[fd];
    if( of.f )
        of.f->bytes.resize( size_t( n ) );
    return 0;
}
int ftruncate64( int fd, off64_t n ) noexcept
{
    return ftruncate( fd, n );
}
int truncate( const char * path, off_t n ) noexcept
{
    REAL( truncate );
    Proc * p = active();
    if( !p )
        return real( path, n );
    Out o;
    auto it = p->w->fs.find( resolve( *p->w, path ) );
    if( it == p->w->fs.end() || it->second.dir )
    {
        errno = ENOENT;
        return -1;
    }
    it->second.file->bytes.resize( size_t( n ) );
    return 0;
}
int stat( const char * path, struct stat * s ) noexcept
{
    REAL( stat );
    Proc * p = active();
    if( !p || real_path_ok( path ) )
        return real( path, s );
    Out o;
    return do_stat( p, path, s );
}
int lstat( const char * path, struct stat * s ) noexcept
{
    REAL( lstat );
    Proc * p = active();
    if( !p || real_path_ok( path ) )
        return real( path, s );
    Out o;
    return do_stat( p, path, s );
}
int stat64( const char * path, struct stat64 * s ) noexcept
{
    return stat( path, reinterpret_cast<struct stat *>( s ) );
}
int lstat64( const char * path, struct stat64 * s ) noexcept
{
    return lstat( path, reinterpret_cast<struct stat *>( s ) );
}
int fstat( int fd, struct stat * s ) noexcept
{
    REAL( fstat );
    if( !is_sim_fd( fd ) || !current() )
        return real( fd, s );
    Out o;
    auto it = current()->fds.find( fd );
    if( it == current()->fds.end() )
    {
        errno = EBADF;
        return -1;
    }
    Node n{ it->second.dir, it->second.f };
    fill_stat( s, n );
    return 0;
}
int fstat64( int fd, struct stat64 * s ) noexcept
{
    return fstat( fd, reinterpret_cast<struct stat *>( s ) );
}
int fstatat( int dfd, const char * path, struct stat * s, int fl ) noexcept
{
    REAL( fstatat );
    Proc * p = active();
    if( !p || real_path_ok( path ) )
        return real( dfd, path, s, fl );
    Out o;
    if( path[0] != '/' && dfd != AT_FDCWD && is_sim_fd( dfd ) )
        return do_stat( p, ( p->fds[dfd].path + "/" + path ).c_str(), s );
    return do_stat( p, path, s );
}
int fstatat64( int dfd, const char * path, struct stat64 * s, int fl ) noexcept
{
    return fstatat( dfd, path, reinterpret_cast<struct stat *>( s ), fl );
}
int access( const char * path, int m ) noexcept
{
    REAL( access );
    Proc * p = active();
    if( !p || real_path_ok( path ) )
        return real( path, m );
    Out o;
    struct stat s;
    return do_stat( p, path, &s );
}
int mkdir( const char * path, mode_t m ) noexcept
{
    REAL( mkdir );
    Proc * p = active();
    if( !p )
        return real( path, m );
    Out o;
    return do_mkdir( p, path );
}
int mkdirat( int, const char * path, mode_t m ) noexcept
{
    return mkdir( path, m );
}
int unlink( const char * path ) noexcept
{
    REAL( unlink );
    Proc * p = active();
    if( !p )
        return real( path );
    Out o;
    return do_unlink( p, path );
}
int rmdir( const char * path ) noexcept
{
    REAL( rmdir );
    Proc * p = active();
    if( !p )
        return real( path );
    Out o;
    return do_unlink( p, path );
}
int remove( const char * path ) noexcept
{
    REAL( remove );
    Proc * p = active();
    if( !p )
        return real( path );
    Out o;
    return do_unlink( p, path );
}
int unlinkat( int dfd, const char * path, int fl ) noexcept
{
    REAL( unlinkat );
    Proc * p = active();
    if( !p )
        return real( dfd, path, fl );
    Out o;
    if( path[0] != '/' && is_sim_fd( dfd ) )
        return do_unlink( p, ( p->fds[dfd].path + "/" + path ).c_str() );
    return do_unlink( p, path );
}
int rename( const char * a, const char * b ) noexcept
{
    REAL( rename );
    Proc * p = active();
    if( !p )
        return real( a, b );
    Out o;
    return do_rename( p, a, b );
}
// nothing of the system under test may reach the real machine this way
#define REFUSE( ret, name, params, args )                                      \
    ret name params noexcept                                                   \
    {                                                                          \
        static auto real = reinterpret_cast<ret ( * ) params>( dlsym( RTLD_NEXT, #name ) ); \
        if( active() )                                                         \
        {                                                                      \
            errno = EPERM;                                                     \
            return ret( -1 );                                                  \
        }                                                                      \
        return real args;                                                      \
    }
REFUSE( int, symlink, ( const char * a, const char * b ), ( a, b ) )
REFUSE( int, link, ( const char * a, const char * b ), ( a, b ) )
REFUSE( int, chmod, ( const char * a, mode_t m ), ( a, m ) )
REFUSE( int, chdir, ( const char * a ), ( a ) )
REFUSE( int, kill, ( pid_t p, int s ), ( p, s ) )
int system( const char * c )
{
    REAL( system );
    if( active() )
    {
        errno = EPERM;
        return -1;
    }
    return real( c );
}
char * getcwd( char * b, size_t n ) noexcept
{
    REAL( getcwd );
    Proc * p = active();
    if( !p )
        return real( b, n );
    Out o;
    if( !b )
    {
        b = static_cast<char *>( malloc( n ? n : 4096 ) );
        n = n ? n : 4096;
    }
    if( p->w->cwd.size() + 1 > n )
    {
        errno = ERANGE;
        return nullptr;
    }
    strcpy( b, p->w->cwd.c_str() );
    return b;
}
// directory reading
struct SimDir
{
    u64 magic = 0x51d;
    vector<string> names;
    vector<bool> isdir;
    size_t pos = 0;
    struct dirent de;
    int fd = -1;
};
static std::vector<SimDir *> g_dirs;
static bool is_sim_dir( DIR * d )
{
    for( auto * x : g_dirs )
        if( reinterpret_cast<DIR *>( x ) == d )
            return true;
    return false;
}
static DIR * make_dir( Proc * p, const string & path, int fd )
{
    auto it = p->w->fs.find( path );
    if( it == p->w->fs.end() || !it->second.dir )
    {
        errno = it == p->w->fs.end() ? ENOENT : ENOTDIR;
        return nullptr;
    }
    auto * d = new SimDir;
    d->fd    = fd;
    for( auto & n : p->w->list( path ) )
        if( n.find( '/' ) == string::npos )
        {
            d->names.push_back( n );
            d->isdir.push_back( p->w->fs[path + "/" + n].dir );
        }
    g_dirs.push_back( d );
    return reinterpret_cast<DIR *>( d );
}
DIR * opendir( const char * path )
{
    REAL( opendir );
    Proc * p = active();
    if( !p )
        return real( path );
    Out o;
    return make_dir( p, resolve( *p->w, path ), -1 );
}
DIR * fdopendir( int fd )
{
    REAL( fdopendir );
    Proc * p = active();
    if( !p || !is_sim_fd( fd ) )
        return real( fd );
    Out o;
    return make_dir( p, p->fds[fd].path, fd );
}
struct dirent * readdir( DIR * d )
{
    REAL( readdir );
    if( !current() || !is_sim_dir( d ) )
        return real( d );
    Out o;
    auto * s = reinterpret_cast<SimDir *>( d );
    if( s->pos >= s->names.size() )
        return nullptr;
    memset( &s->de, 0, sizeof s->de );
    strncpy( s->de.d_name, s->names[s->pos].c_str(), sizeof s->de.d_name - 1 );
    s->de.d_type = s->isdir[s->pos] ? DT_DIR : DT_REG;
    s->de.d_ino  = s->pos + 1;
    s->pos++;
    return &s->de;
}
struct dirent64 * readdir64( DIR * d )
{
    return reinterpret_cast<struct dirent64 *>( readdir( d ) );
}
int closedir( DIR * d )
{
    REAL( closedir );
    if( !current() || !is_sim_dir( d ) )
        return real( d );
    Out o;
    return 0;
}
int dirfd( DIR * d ) noexcept
{
    REAL( dirfd );
    if( !current() || !is_sim_dir( d ) )
        return real( d );
    return reinterpret_cast<SimDir *>( d )->fd;
}
int poll( struct pollfd * f, nfds_t n, int t )
{
    REAL( poll );
    for( nfds_t i = 0; i < n; i++ )
        if( is_sim_fd( f[i].fd ) )
        {
            f[i].revents = f[i].events;
            return 1;
        }
    return real( f, n, t );
}
int ioctl( int fd, unsigned long rq, ... ) noexcept
{
    static auto real = reinterpret_cast<int ( * )( int, unsigned long, ... )>( dlsym( RTLD_NEXT, "ioctl" ) );
    va_list ap;
    va_start( ap, rq );
    void * a = va_arg( ap, void * );
    va_end( ap );
    if( is_sim_fd( fd ) )
    {
        if( rq == FIONREAD && current() )
        {
            auto & o                  = current()->fds[fd];
            *static_cast<int *>( a ) = o.f ? int( o.f->bytes.size() - o.off ) : 0;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return real( fd, rq, a );
}

// clocks
static i64 read_clock( Proc * p, bool mono )
{
    p->st.clock_reads++;
    i64 step = p->plan.clock_step;
    if( p->plan.clock_noise )
    {
        u64 r = p->cnoise.below( 16 );
        if( r == 0 )
        {
            count( Counters::ClockJump );
            p->real_ns -= i64( p->cnoise.below( 7200ull * 1'000'000'000 ) );
        }
        else if( r == 1 )
        {
            count( Counters::ClockJump );
            p->real_ns += i64( p->cnoise.below( 400ull * 86400 * 1'000'000'000 ) );
        }
        else if( r < 6 )
            step = i64( p->cnoise.below( 5'000'000'000ull ) );
        else if( r < 8 )
            step = 0;
    }
    advance( p, step );
    return mono ? p->mono_ns : p->real_ns;
}
int clock_gettime( clockid_t id, struct timespec * ts ) noexcept
{
    REAL( clock_gettime );
    Proc * p = active();
    if( !p )
        return real( id, ts );
    Out o;
    i64 t       = read_clock( p, id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE );
    ts->tv_sec  = t / 1'000'000'000;
    ts->tv_nsec = t % 1'000'000'000;
    return 0;
}
int gettimeofday( struct timeval * tv, void * tz ) noexcept
{
    static auto real = reinterpret_cast<int ( * )( struct timeval *, void * )>( dlsym( RTLD_NEXT, "gettimeofday" ) );
    Proc * p         = active();
    if( !p )
        return real( tv, tz );
    Out o;
    i64 t       = read_clock( p, false );
    tv->tv_sec  = t / 1'000'000'000;
    tv->tv_usec = t % 1'000'000'000 / 1000;
    return 0;
}
time_t time( time_t * out ) noexcept
{
    REAL( time );
    Proc * p = active();
    if( !p )
        return real( out );
    Out o;
    time_t t = read_clock( p, false ) / 1'000'000'000;
    if( out )
        *out = t;
    return t;
}
clock_t clock() noexcept
{
    REAL( clock );
    Proc * p = active();
    if( !p )
        return real();
    Out o;
    return clock_t( read_clock( p, true ) / 1000 );
}
int nanosleep( const struct timespec * a, struct timespec * b )
{
    REAL( nanosleep );
    Proc * p = active();
    if( !p )
        return real( a, b );
    Out o;
    advance( p, i64( a->tv_sec ) * 1'000'000'000 + a->tv_nsec );
    return 0;
}
int usleep( useconds_t u )
{
    REAL( usleep );
    Proc * p = active();
    if( !p )
        return real( u );
    Out o;
    advance( p, i64( u ) * 1000 );
    return 0;
}
pid_t getpid() noexcept
{
    REAL( getpid );
    Proc * p = active();
    return p ? pid_t( 2 + p->plan.device_value % 30000 ) : real();
}
ssize_t getrandom( void * b, size_t n, unsigned fl )
{
    REAL( getrandom );
    Proc * p = active();
    if( !p )
        return real( b, n, fl );
    Out o;
    Rng r( p->plan.device_value );
    for( size_t i = 0; i < n; i++ )
        static_cast<unsigned char *>( b )[i] = (unsigned char)r.next();
    return ssize_t( n );
}
int getentropy( void * b, size_t n )
{
    REAL( getentropy );
    if( !active() )
        return real( b, n );
    getrandom( b, n, 0 );
    return 0;
}
void exit( int code ) noexcept
{
    static auto real = reinterpret_cast<void ( * )( int )>( dlsym( RTLD_NEXT, "exit" ) );
    if( Proc * p = active() )
        die( p, End::Exit, code, "exit called" );
    real( code );
    __builtin_unreachable();
}
void _exit( int code )
{
    static auto real = reinterpret_cast<void ( * )( int )>( dlsym( RTLD_NEXT, "_exit" ) );
    if( Proc * p = active() )
        die( p, End::Exit, code, "_exit called" );
    real( code );
    __builtin_unreachable();
}
void sim_guard( int d )
{
    if( Proc * p = current() )
        p->no_preempt += d;
}
int pthread_mutex_lock( pthread_mutex_t * m ) noexcept
{
    REAL( pthread_mutex_lock );
    Proc * p = active();
    if( !p )
        return real( m );
    static auto tryl
        = reinterpret_cast<int ( * )( pthread_mutex_t * )>( dlsym( RTLD_NEXT, "pthread_mutex_trylock" ) );
    u64 spins = 0;
    int r;
    while( ( r = tryl( m ) ) == EBUSY )
    {
        if( ++spins > 100000 )
            die( p, End::Stuck, 0, "deadlock on a mutex" );
        yield_now( p );
    }
    return r;
}
} // extern "C"

// ---- memory ----------------------------------------------------------------
// Every block carries its size and owner in front and a red zone behind it.
namespace sim
{
struct Block
{
    u64 magic;
    size_t n;
    Block *prev, *next; // blocks of the same simulated process
    int owner;          // 0 = the simulator
    unsigned pad;       // distance to what malloc returned
    unsigned char zone; // contents of the red zone
};
constexpr size_t HEAD = 64, ZONE = 24;
constexpr u64 LIVE = 0x5e1d0a11cafef00dull, FREED = 0xdeadb10cdeadb10cull;
static_assert( sizeof( Block ) <= HEAD );
static Block * block_of( void * m )
{
    return reinterpret_cast<Block *>( static_cast<char *>( m ) - HEAD );
}
static bool zone_ok( const Block * b )
{
    auto * z = reinterpret_cast<const unsigned char *>( b ) + HEAD + b->n;
    for( size_t i = 0; i < ZONE; i++ )
        if( z[i] != b->zone )
            return false;
    return true;
}
static void damaged( const char * what )
{
    if( Proc * p = active() )
        die( p, End::Assert, 0, what );
    if( Proc * p = current() )
    {
        if( !p->heap_damage )
            p->heap_damage = what;
        return;
    }
    static const char msg[] = "simulator heap damaged\n";
    if( ::write( 2, msg, sizeof msg - 1 ) < 0 ) {}
    abort();
}
// Memory of the code under test comes from an arena at a fixed address, so that addresses are a function of the choices
// of the run, and not of what the simulator did before.
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 1ull << 34, SMALL = 4096, LARGEST = 64ull << 20;
struct Cell { Cell * next; };
static struct
{
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    bool tried            = false;
    char *top = nullptr, *end = nullptr;
    Cell * small[SMALL / 16 + 1] = {}; // by size in units of 16 bytes
    Cell * large[40]             = {}; // by power of two
} g_arena;
static size_t cell_size( size_t n )
{
    if( n <= SMALL )
        return ( n + 15 ) & ~size_t( 15 );
    return std::bit_ceil( n );
}
static Cell ** cell_list( size_t size )
{
    return size <= SMALL ? &g_arena.small[size / 16] : &g_arena.large[std::countr_zero( size )];
}
static char * arena_get( size_t n, size_t skip = 0 )
{
    const size_t size = cell_size( n );
    if( size > LARGEST )
        return nullptr;
    while( g_arena.lock.test_and_set() ) {}
    if( !g_arena.tried )
    {
        g_arena.tried = true;
        void * m = mmap( reinterpret_cast<void *>( ARENA ), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
        if( m == reinterpret_cast<void *>( ARENA ) )
            g_arena.top = static_cast<char *>( m ), g_arena.end = g_arena.top + ARENA_SIZE;
    }
    char * r   = nullptr;
    Cell ** l  = cell_list( size );
    for( size_t k = 0; k < skip && *l && ( *l )->next; k++ )
        l = &( *l )->next;
    if( *l )
    {
        r  = reinterpret_cast<char *>( *l );
        *l = ( *l )->next;
    }
    else if( g_arena.top && size_t( g_arena.end - g_arena.top ) >= size )
    {
        r = g_arena.top;
        g_arena.top += size;
    }
    g_arena.lock.clear();
    return r;
}
static bool in_arena( void * m )
{
    return uintptr_t( m ) >= ARENA && uintptr_t( m ) < ARENA + ARENA_SIZE;
}
static void arena_put( char * m, size_t n )
{
    while( g_arena.lock.test_and_set() ) {}
    Cell ** l = cell_list( cell_size( n ) );
    auto * c  = reinterpret_cast<Cell *>( m );
    c->next   = *l;
    *l        = c;
    g_arena.lock.clear();
}
static void release( Block * b )
{
    b->magic = 0;
    char * m = reinterpret_cast<char *>( b ) - b->pad;
    if( in_arena( m ) )
        arena_put( m, HEAD + b->n + ZONE + b->pad );
    else
        free( m );
}
static void unlink_block( Block * b )
{
    Proc * q = b->owner ? g_owners[b->owner % N_OWNERS] : nullptr;
    if( !q || q->id != b->owner - 1 )
        return;
    ( b->prev ? b->prev->next : q->blocks ) = b->next;
    if( b->next )
        b->next->prev = b->prev;
    q->live_blocks--;
    q->live_bytes -= i64( b->n );
}
} // namespace sim
const char * sim::check_heap( Proc * p )
{
    for( Block * b = p->blocks; b; b = b->next )
        if( b->magic != LIVE )
            return "overwrote what is in front of an allocation";
        else if( !zone_ok( b ) )
            return "wrote past the end of an allocation";
    return nullptr;
}
Holdings sim::holdings()
{
    Proc * p = current();
    return { p->live_blocks, p->live_bytes, i64( p->fds.size() ) + i64( p->dir_handles ) };
}
Holdings sim::peak_holdings( bool start )
{
    Proc * p = current();
    if( start )
        p->peak = holdings();
    return p->peak;
}
void * operator new( size_t n )
{
    Proc * p = active();
    if( p )
    {
        u64 i = p->plan.alloc_in_run && !p->st.wopens ? p->st.allocs : p->st.allocs++;
        if( i64( i ) == p->plan.alloc_fail && ( p->st.wopens || !p->plan.alloc_in_run ) )
        {
            count( Counters::AllocFail );
            throw std::bad_alloc();
        }
    }
    if( n > ( 1ull << 34 ) )
        throw std::bad_alloc();
    unsigned pad = 0;
    char * m     = nullptr;
    if( p )
    {
        size_t skip = 0; // which of the free places to take
        if( p->plan.heap_seed ) // addresses in any order
        {
            u64 r = p->hrng.next();
            pad   = unsigned( r % 8 ) * 16;
            skip  = ( r >> 8 ) % 4;
            if( ( r >> 16 ) % 4 == 0 && n < SMALL ) // leave a gap that is filled later
                if( char * gap = arena_get( HEAD + n + ZONE + unsigned( ( r >> 24 ) % 8 ) * 16, 0 ) )
                {
                    m = arena_get( HEAD + n + ZONE + pad, skip );
                    arena_put( gap, HEAD + n + ZONE + unsigned( ( r >> 24 ) % 8 ) * 16 );
                }
        }
        if( !m )
            m = arena_get( HEAD + n + ZONE + pad, skip );
    }
    if( !m )
        m = static_cast<char *>( malloc( HEAD + n + ZONE + pad ) );
    if( !m )
        throw std::bad_alloc();
    auto * b = reinterpret_cast<Block *>( m + pad );
    b->magic = LIVE, b->n = n, b->pad = pad, b->owner = 0, b->prev = b->next = nullptr;
    b->zone  = p ? (unsigned char)( p->plan.fill_new ^ 0x5a ) : 0x5a;
    void * r = m + pad + HEAD;
    memset( static_cast<char *>( r ) + n, b->zone, ZONE );
    if( p )
    {
        b->owner = p->id + 1;
        b->next  = p->blocks;
        if( b->next )
            b->next->prev = b;
        p->blocks = b;
        p->live_blocks++;
        p->live_bytes += i64( n );
        p->peak.blocks = std::max( p->peak.blocks, p->live_blocks );
        p->peak.bytes  = std::max( p->peak.bytes, p->live_bytes );
        if( p->plan.fill_new >= 0 && n < ( 1u << 20 ) )
            memset( r, p->plan.fill_new, n );
    }
    return r;
}
void * operator new[]( size_t n )
{
    return operator new( n );
}
void operator delete( void * m ) noexcept
{
    if( !m )
        return;
    Block * b = block_of( m );
    if( b->magic != LIVE )
    {
        damaged( b->magic == FREED ? "memory released twice" : "released memory that was not allocated, or overwrote what is in front of it" );
        return;
    }
    if( !zone_ok( b ) )
        damaged( "wrote past the end of an allocation" );
    unlink_block( b );
    Proc * p = active();
    if( !p || b->n > 4096 )
    {
        if( p && p->plan.fill_free >= 0 && b->n < ( 1u << 20 ) )
            memset( m, p->plan.fill_free, b->n );
        release( b );
        return;
    }
    // kept for a while to notice who still uses it
    b->magic = FREED;
    b->zone  = (unsigned char)( p->plan.fill_free >= 0 ? p->plan.fill_free : 0xdd );
    if( p->plan.fill_free >= 0 )
        memset( m, p->plan.fill_free, b->n );
    Block *& slot = p->kept[p->n_kept++ % N_KEPT];
    if( slot )
    {
        if( slot->magic != FREED )
            damaged( "wrote in front of released memory" );
        if( p->plan.fill_free >= 0 )
        {
            auto * c = reinterpret_cast<unsigned char *>( slot ) + HEAD;
            for( size_t i = 0; i < slot->n; i++ )
                if( c[i] != slot->zone )
                {
                    damaged( "wrote to released memory" );
                    break;
                }
        }
        release( slot );
    }
    slot = b;
}
void operator delete[]( void * m ) noexcept
{
    operator delete( m );
}
void operator delete( void * m, size_t ) noexcept
{
    operator delete( m );
}
void operator delete[]( void * m, size_t ) noexcept
{
    operator delete( m );
}
