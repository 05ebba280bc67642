// Deterministic simulator core: choices, virtual file system, clock, scheduler, fault injection.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim
{
using u64 = std::uint64_t;
using i64 = std::int64_t;
using std::string;
using std::vector;

u64 mix64( u64 x );

struct Rng
{
    u64 s;
    explicit Rng( u64 seed = 1 ) : s( seed ) {}
    u64 next(); // splitmix64
    u64 below( u64 n ) { return n <= 1 ? 0 : next() % n; }
    double unit() { return double( next() >> 11 ) * 0x1.0p-53; }
};

// One integer decides everything: every decision of a run is drawn here, in
// order, and recorded.  A replay feeds the recorded values back; values past
// the end of a replay script are 0, which is always the simplest option.
class Choices
{
public:
    bool replay = false;
    vector<u64> script;
    vector<u64> taken;
    Rng rng{ 1 };
    u64 below( u64 n );           // 0 .. n-1
    bool chance( u64 num, u64 den ) { return below( den ) >= den - num; } // 0 => false
    i64 range( i64 lo, i64 hi ) { return lo + i64( below( u64( hi - lo + 1 ) ) ); }
    double unit() { return double( below( 1ull << 32 ) ) / 4294967296.0; }
    template<typename T> const T & pick( const vector<T> & v ) { return v[below( v.size() )]; }
};

enum class Op
{
    Open, Read, Write, Close, Seek, Stat, Mkdir, Rename, Unlink, Stdout, Other, N
};
const char * op_name( Op );

// A targeted fault: the nth operation of kind `op` (restricted to paths
// containing `path`, when set) fails in the given way.
struct Fault
{
    Op op        = Op::Write;
    u64 nth      = 0;
    int err      = 0;     // errno, 0 = special
    bool sticky  = false; // every later one as well
    bool eof     = false; // Read: pretend end of file
    bool partial = false; // Write: write part, then fail at once
    string path{};
    u64 seen     = 0;     // runtime
    bool fired   = false; // runtime
};

struct Override
{
    u64 draw;       // index of the draw
    std::uint32_t value;
};

struct Plan
{
    // crash (SIGKILL) at file operation number crash_op (0-based over all ops of
    // the process); a write is torn at fraction crash_frac/256 of its length
    i64 crash_op  = -1;
    u64 crash_frac = 0;
    vector<Fault> faults;
    // benign noise: legal anomalies that must not change anything
    u64 noise_seed = 0;
    int p_short = 0, p_eintr = 0; // in 1/256
    i64 disk_capacity = -1;       // bytes of all files; ENOSPC beyond
    bool alloc_in_run = false; // allocations count from the first opening of an output file on
    i64 alloc_fail    = -1;       // nth allocation of the process throws bad_alloc
    vector<Override> overrides;   // sorted by draw
    int fill_new = 0, fill_free = -1, fill_stack = -1; // memory poison bytes
    u64 heap_seed = 0; // != 0: addresses of allocations in any order
    std::uint32_t device_value = 12345;
    // clock
    i64 clock_base = 1'700'000'000'000'000'000ll;
    i64 clock_step = 1000; // ns per reading
    u64 clock_noise = 0;   // seed; 0 = none: otherwise jumps back and forth
    u64 max_steps = 1'000'000'000; // basic blocks before a run counts as stuck
    size_t stack_size = 8u << 20;
};

struct FileData
{
    string bytes;
    u64 last_writer = 0;
};
struct Node
{
    bool dir = false;
    std::shared_ptr<FileData> file;
};

enum class End { Running, Exit, Uncaught, Signal, Killed, Assert, Stuck };

struct ProcStats
{
    u64 ops = 0, writes = 0, reads = 0, opens = 0, wopens = 0, closes = 0, stdouts = 0, allocs = 0, draws = 0, steps = 0, clock_reads = 0, yields = 0, sim_ns = 0;
};

struct Proc;

struct FileEvent // order in which output files were opened / closed
{
    u64 seq;
    int kind; // 0 open-for-write, 1 close, 2 stdout text
    string path;
};

struct World
{
    Choices & ch;
    std::map<string, Node> fs;
    string cwd = "/w";
    vector<string> log; // readable event log (only when verbose)
    bool verbose = false;
    u64 hash = 1469598103934665603ull;      // over every event
    u64 sched_hash = 1469598103934665603ull;
    u64 seq = 0;
    vector<FileEvent> file_events;
    explicit World( Choices & c );
    void note( const string & s ); // event into log and hash
    void hash_bytes( const void * p, size_t n );

    // helpers over the virtual disk
    void put( const string & path, const string & bytes );
    void mkdirs( const string & path );
    bool has( const string & path ) const;
    string get( const string & path ) const;
    vector<string> list( const string & dir ) const; // plain names of files
    void remove_tree( const string & dir );
    void copy_tree( const string & from, const string & to );
    std::map<string, string> tree( const string & dir ) const; // name -> bytes
};

struct Result
{
    End end = End::Running;
    int code = 0;
    string what; // exception text / signal / assertion
    string out;  // captured stdout+stderr
    ProcStats st;
    bool ok() const { return end == End::Exit && code == 0; }
    string describe() const;
};

// Runs bodies as simulated processes/threads, one at a time under a baton; the
// scheduler (choices) decides who runs and when it is preempted.
// preempt_mean = 0: no preemption (single process).
vector<Result> run_procs(
    World & w, const vector<std::function<int()>> & bodies, const vector<Plan> & plans, u64 preempt_mean = 0,
    bool own_data = false ); // own_data: processes with static data of their own, not threads of one
// Called once before any run: remembers the initial static data of the library.
void save_image( const char * lib );
Result run_proc( World & w, const std::function<int()> & body, const Plan & plan );

// Marks code of the system under test: seams and fault injection are active
// only inside a scope, on a simulated process's thread.
// What the standard streams do without memory (they stop without telling) is not the repository's affair
struct NoAllocFaults
{
    i64 prev = -1;
    NoAllocFaults();
    ~NoAllocFaults();
};
struct Scope
{
    bool prev;
    Scope();
    ~Scope();
};
// Inside a body, on the simulated thread, outside of a Scope:
Plan & current_plan();
ProcStats & current_stats();
struct Holdings // what the system under test has not given back
{
    i64 blocks, bytes, files;
    bool operator==( const Holdings & ) const = default;
};
Holdings holdings();
Holdings peak_holdings( bool start ); // the most of each since the start
void maybe_yield(); // explicit yield point for harness code

struct Counters // what actually fired, over the run
{
    enum K
    {
        Crash, TornWrite, OpenErr, WriteErr, ShortWrite, Eintr, ShortRead, ReadErr, EarlyEof, CloseErr, SeekErr, StatErr,
        MkdirErr, Enospc, StdoutErr, AllocFail, RngOverride, ClockJump, Preempt, Restart, Corrupt, StaleFiles, N
    };
    u64 v[N] = {};
};
extern const char * counter_names[Counters::N];
void count( Counters::K k, u64 n = 1 );

// ---- reporting out of a run ------------------------------------------------
struct Shared // lives in memory shared with the parent of the run
{
    int state; // 0 running, 1 held, 2 violation, 3 harness error
    char cls[200];
    char msg[4000];
    u64 hash, sched_hash, state_hash;
    Counters cnt;
    u64 sim_ns, iterations, procs, steps, draws, ops;
    u64 probes[32];
    u64 nontrivial;
    u64 n_choices;
    u64 choices[1 << 20];
    u64 log_len;
    char log[1 << 20];
    char sample[2000];
    char known[8][160];
    int n_known;
    unsigned char cov[1 << 16];
};
extern Shared * shared;

struct Violation
{
    string cls, msg;
};
[[noreturn]] void violate( const string & cls, const string & msg );
void probe( int i, u64 n = 1 );
void state_hash( const void * p, size_t n );
void state_hash( const string & s );
void known_finding( const string & key );

string fmt_double( double d );
string strf( const char * f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
} // namespace sim
