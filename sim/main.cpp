// Driver: seeded search, minimisation, replay, evidence.
#include "model.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static double now()
{
    return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}
static u64 run_seed( u64 seed, const string & id, u64 i )
{
    u64 h = mix64( seed ^ 0x5eed );
    for( char c : id )
        h = mix64( h ^ u64( c ) );
    return mix64( h ^ mix64( i ) );
}
static Shared * new_shared()
{
    void * m = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( m == MAP_FAILED )
    {
        perror( "mmap" );
        exit( 3 );
    }
    return static_cast<Shared *>( m );
}
static void reset_shared()
{
    Shared * s   = shared;
    s->state     = 0;
    s->cls[0]    = s->msg[0] = s->sample[0] = 0;
    s->hash = s->sched_hash = s->state_hash = 0;
    s->cnt       = Counters{};
    s->sim_ns = s->iterations = s->procs = s->steps = s->draws = s->ops = 0;
    memset( s->probes, 0, sizeof s->probes );
    s->nontrivial = 0;
    s->n_choices  = 0;
    s->log_len    = 0;
    s->n_known    = 0;
}
static const Prop * find( const string & id )
{
    for( auto & p : registry() )
        if( id == p.id )
            return &p;
    return nullptr;
}

// One simulated run in a process of its own.  Result in *shared.
static void run_one( const Prop & p, u64 seed, const vector<u64> * script, bool verbose, double wall_limit = 120 )
{
    reset_shared();
    fflush( stdout );
    pid_t pid = fork();
    if( pid < 0 )
    {
        perror( "fork" );
        exit( 3 );
    }
    if( pid == 0 )
    {
        prctl( PR_SET_PDEATHSIG, SIGKILL );
        struct rlimit rl{ 0, 0 };
        setrlimit( RLIMIT_CORE, &rl );
        alarm( unsigned( wall_limit ) );
        Choices ch;
        ch.rng    = Rng( seed );
        ch.replay = script != nullptr;
        if( script )
            ch.script = *script;
        World w( ch );
        w.verbose = verbose;
        int state = 1;
        try
        {
            p.fn( w );
        }
        catch( const Violation & v )
        {
            state = 2;
            snprintf( shared->cls, sizeof shared->cls, "%s", v.cls.c_str() );
            snprintf( shared->msg, sizeof shared->msg, "%s", v.msg.c_str() );
        }
        catch( const std::exception & e )
        {
            state = 3;
            snprintf( shared->msg, sizeof shared->msg, "harness exception: %s", e.what() );
        }
        shared->hash       = w.hash;
        shared->sched_hash = w.sched_hash;
        if( verbose )
        {
            string s;
            for( auto & l : w.log )
                s += l + "\n";
            shared->log_len = std::min( s.size(), sizeof shared->log );
            memcpy( shared->log, s.data(), shared->log_len );
        }
        shared->state = state;
        _exit( 0 );
    }
    int st = 0;
    while( waitpid( pid, &st, 0 ) < 0 ) {}
    if( shared->state == 0 )
    {
        shared->state = 3;
        snprintf( shared->msg, sizeof shared->msg, "run ended without a verdict (%s %d)", WIFSIGNALED( st ) ? "signal" : "status",
                  WIFSIGNALED( st ) ? WTERMSIG( st ) : WEXITSTATUS( st ) );
    }
}

// ------------------------------------------------------------------ shrinking
static vector<u64> shrink( const Prop & p, vector<u64> best, const string & cls, double budget, u64 * tries )
{
    double end = now() + budget;
    auto fails = [&]( const vector<u64> & c ) -> bool
    {
        if( now() > end )
            return false;
        ++*tries;
        run_one( p, 0, &c, false, 20 );
        if( shared->state != 2 || cls != shared->cls )
            return false;
        return true;
    };
    auto strip = []( vector<u64> & v )
    {
        while( !v.empty() && v.back() == 0 )
            v.pop_back();
    };
    strip( best );
    bool progress = true;
    while( progress && now() < end )
    {
        progress = false;
        // cut the tail
        for( size_t len = best.size() / 2; len >= 1 && now() < end; len /= 2 )
            while( best.size() > len )
            {
                vector<u64> c( best.begin(), best.end() - i64( len ) );
                if( !fails( c ) )
                    break;
                best     = c;
                progress = true;
            }
        // delete or zero blocks
        for( size_t len = std::min<size_t>( 64, best.size() ); len >= 1 && now() < end; len /= 2 )
            for( size_t i = 0; i + len <= best.size() && now() < end; i += len )
            {
                vector<u64> c = best;
                c.erase( c.begin() + i64( i ), c.begin() + i64( i + len ) );
                if( fails( c ) )
                {
                    best     = c;
                    progress = true;
                    continue;
                }
                c         = best;
                bool nz   = false;
                for( size_t j = i; j < i + len; j++ )
                {
                    nz |= c[j] != 0;
                    c[j] = 0;
                }
                if( nz && fails( c ) )
                {
                    best     = c;
                    progress = true;
                }
            }
        // lower single values
        for( size_t i = 0; i < best.size() && now() < end; i++ )
            while( best[i] > 0 && now() < end )
            {
                vector<u64> c = best;
                bool ok       = false;
                for( u64 v : { best[i] / 2, best[i] - 1 } )
                {
                    if( v == best[i] )
                        continue;
                    c[i] = v;
                    if( fails( c ) )
                    {
                        best     = c;
                        progress = true;
                        ok       = true;
                        break;
                    }
                }
                if( !ok )
                    break;
            }
        strip( best );
    }
    return best;
}

static string one_line( string s )
{
    for( auto & c : s )
        if( c == '\n' || c == '\r' )
            c = ' ';
    return s;
}
static void write_replay( const string & path, const Prop & p, const vector<u64> & choices, u64 seed, u64 index, size_t orig )
{
    // (the verbose run fills the event log)
    run_one( p, 0, &choices, true );
    std::ofstream f( path );
    f << "property " << p.id << "\nseed " << seed << " run " << index << "\nclass " << one_line( shared->cls ) << "\nhash "
      << shared->hash << "\nchoices " << choices.size() << " (minimised from " << orig << ")\n";
    for( size_t i = 0; i < choices.size(); i++ )
        f << choices[i] << ( i % 20 == 19 ? "\n" : " " );
    f << "\nmessage " << one_line( shared->msg ) << "\n--- schedule and fault trace\n";
    f.write( shared->log, i64( shared->log_len ) );
}
static bool read_replay( const string & path, string & id, vector<u64> & choices, string & cls, u64 & hash )
{
    std::ifstream f( path );
    string word, line;
    size_t n = 0;
    while( f >> word )
    {
        if( word == "property" )
            f >> id;
        else if( word == "class" )
        {
            std::getline( f, cls );
            if( !cls.empty() && cls[0] == ' ' )
                cls.erase( 0, 1 );
        }
        else if( word == "hash" )
            f >> hash;
        else if( word == "choices" )
        {
            f >> n;
            std::getline( f, line );
            for( size_t i = 0; i < n; i++ )
            {
                u64 v;
                if( !( f >> v ) )
                    return false;
                choices.push_back( v );
            }
            return true;
        }
        else
            std::getline( f, line );
    }
    return false;
}

// ------------------------------------------------------------------ search
struct Agg // one per worker, in shared memory
{
    u64 runs, nontrivial, errors, sim_ns, iterations, procs, steps, draws, ops;
    Counters cnt;
    u64 probes[32];
    u64 n_hashes;
    u64 viol_index; // lowest violating run, ~0 = none
    char err[500];
    char known[8][160];
    int n_known;
    char samples[3][2000];
    int n_samples;
    unsigned char cov[1 << 16];
    u64 hashes[1 << 20];  // event-history hashes of non-trivial runs
    u64 scheds[1 << 20];
    u64 states[1 << 20];
};
static string jstr( const string & s )
{
    string o = "\"";
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' )
            o += '\\', o += char( c );
        else if( c == '\n' )
            o += "\\n";
        else if( c < 32 || c > 126 )
            o += strf( "\\u%04x", c );
        else
            o += char( c );
    }
    return o + "\"";
}

int cmd_check( const string & id, const string & verif, bool thorough, u64 seed )
{
    const Prop * p = find( id );
    if( !p )
    {
        fprintf( stderr, "unknown property %s\n", id.c_str() );
        return 3;
    }
    double t0     = now();
    u64 total     = thorough ? p->thorough_runs : p->quick_runs;
    double cap    = thorough ? 780 : 150;
    if( const char * e = getenv( "SIM_RUNS" ) )
        total = strtoull( e, nullptr, 10 );
    int workers = 8;
    if( const char * e = getenv( "SIM_WORKERS" ) )
        workers = atoi( e );
    printf( "property %s seed %llu tier %s runs %llu\n", id.c_str(), (unsigned long long)seed, thorough ? "thorough" : "quick",
            (unsigned long long)total );
    fflush( stdout );
    vector<Agg *> aggs;
    struct Common
    {
        volatile u64 stop_after;
    };
    auto * common = static_cast<Common *>( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    common->stop_after = ~0ull;
    vector<pid_t> pids;
    for( int k = 0; k < workers; k++ )
    {
        auto * a = static_cast<Agg *>( mmap(
            nullptr, sizeof( Agg ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        a->viol_index = ~0ull;
        aggs.push_back( a );
        fflush( stdout );
        pid_t pid = fork();
        if( pid == 0 )
        {
            prctl( PR_SET_PDEATHSIG, SIGKILL );
            shared = new_shared();
            for( u64 i = u64( k ); i < total && i <= common->stop_after; i += u64( workers ) )
            {
                if( now() - t0 > cap )
                    break;
                run_one( *p, run_seed( seed, id, i ), nullptr, false );
                a->runs++;
                Shared * s = shared;
                if( s->state == 3 )
                {
                    a->errors++;
                    if( !a->err[0] )
                        snprintf( a->err, sizeof a->err, "run %llu: %s", (unsigned long long)i, s->msg );
                }
                if( s->state == 2 )
                {
                    a->viol_index = i;
                    if( i < common->stop_after )
                        common->stop_after = i;
                    break;
                }
                for( int j = 0; j < Counters::N; j++ )
                    a->cnt.v[j] += s->cnt.v[j];
                for( int j = 0; j < 32; j++ )
                    a->probes[j] += s->probes[j];
                a->sim_ns += s->sim_ns;
                a->iterations += s->iterations;
                a->procs += s->procs;
                a->steps += s->steps;
                a->draws += s->draws;
                a->ops += s->ops;
                if( s->nontrivial )
                {
                    a->nontrivial++;
                    if( a->n_hashes < ( 1 << 20 ) )
                    {
                        a->hashes[a->n_hashes] = s->hash ^ mix64( s->state_hash );
                        a->scheds[a->n_hashes] = s->sched_hash;
                        a->states[a->n_hashes] = s->state_hash;
                        a->n_hashes++;
                    }
                    if( a->n_samples < 3 && s->sample[0] )
                        memcpy( a->samples[a->n_samples++], s->sample, sizeof s->sample );
                }
                for( int j = 0; j < s->n_known; j++ )
                {
                    bool have = false;
                    for( int q = 0; q < a->n_known; q++ )
                        have |= !strcmp( a->known[q], s->known[j] );
                    if( !have && a->n_known < 8 )
                        strcpy( a->known[a->n_known++], s->known[j] );
                }
            }
            for( int j = 0; j < ( 1 << 16 ); j++ )
                a->cov[j] |= shared->cov[j];
            _exit( 0 );
        }
        pids.push_back( pid );
    }
    bool lost = false;
    for( auto pid : pids )
    {
        int st = 0;
        while( waitpid( pid, &st, 0 ) < 0 ) {}
        if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 )
            lost = true;
    }
    double t_search = now() - t0;

    Agg sum{};
    auto & S = *new Agg;
    memset( &S, 0, sizeof S );
    (void)sum;
    S.viol_index = ~0ull;
    std::unordered_set<u64> hs, sc, stt;
    std::set<string> known;
    vector<string> samples;
    size_t blocks = 0;
    string err;
    for( auto * a : aggs )
    {
        S.runs += a->runs;
        S.nontrivial += a->nontrivial;
        S.errors += a->errors;
        S.sim_ns += a->sim_ns;
        S.iterations += a->iterations;
        S.procs += a->procs;
        S.steps += a->steps;
        S.draws += a->draws;
        S.ops += a->ops;
        for( int j = 0; j < Counters::N; j++ )
            S.cnt.v[j] += a->cnt.v[j];
        for( int j = 0; j < 32; j++ )
            S.probes[j] += a->probes[j];
        S.viol_index = std::min( S.viol_index, a->viol_index );
        for( u64 i = 0; i < a->n_hashes; i++ )
        {
            hs.insert( a->hashes[i] );
            sc.insert( a->scheds[i] );
            stt.insert( a->states[i] );
        }
        for( int q = 0; q < a->n_known; q++ )
            known.insert( a->known[q] );
        for( int q = 0; q < a->n_samples && samples.size() < 4; q++ )
            samples.push_back( a->samples[q] );
        for( int j = 0; j < ( 1 << 16 ); j++ )
            S.cov[j] |= a->cov[j];
        if( a->err[0] && err.empty() )
            err = a->err;
    }
    for( int j = 0; j < ( 1 << 16 ); j++ )
        blocks += S.cov[j];

    int rc        = 0;
    string replay = "", vcls, vmsg;
    u64 tries     = 0;
    // known findings: only what the committed file lists
    std::map<string, string> listed; // key -> description
    {
        std::ifstream f( verif + "/known_findings.txt" );
        string line;
        while( std::getline( f, line ) )
            if( line.rfind( "known: property=" + id + " ", 0 ) == 0 )
            {
                auto a = line.find( "key=" );
                if( a != string::npos )
                {
                    auto b = std::min( line.find( ' ', a ), line.size() );
                    listed[line.substr( a + 4, b - a - 4 )] = line.substr( std::min( b + 1, line.size() ) );
                }
            }
    }
    for( auto & k : known )
    {
        string key = k.substr( 0, k.find( ' ' ) );
        if( listed.count( key ) )
            printf( "KNOWN-FINDING: property=%s %s: %s\n", id.c_str(), key.c_str(), listed[key].c_str() );
        else if( !err.size() )
            err = "unlisted finding " + k;
    }
    shared = new_shared();
    if( S.viol_index != ~0ull )
    {
        u64 sd = run_seed( seed, id, S.viol_index );
        run_one( *p, sd, nullptr, false );
        string cls = shared->cls, msg = shared->msg;
        if( shared->state != 2 )
        {
            fprintf( stderr, "violation of run %llu did not reproduce\n", (unsigned long long)S.viol_index );
            rc = 3;
        }
        else
        {
            printf( "run %llu violates: [%s] %s\n", (unsigned long long)S.viol_index, cls.c_str(), msg.c_str() );
            fflush( stdout );
            vector<u64> ch( shared->choices, shared->choices + std::min<u64>( shared->n_choices, 1 << 20 ) );
            size_t orig = ch.size();
            double budget = 25;
            if( const char * e = getenv( "SIM_SHRINK" ) )
                budget = atof( e );
            ch = shrink( *p, ch, cls, budget, &tries );
            replay = verif + "/replays/" + id + ".replay";
            write_replay( replay, *p, ch, seed, S.viol_index, orig );
            vcls = cls;
            vmsg = shared->msg;
            // fresh processes must reproduce it
            for( int t = 0; t < 2 && rc != 3; t++ )
            {
                char self[4096];
                ssize_t l = readlink( "/proc/self/exe", self, sizeof self - 1 );
                self[l < 0 ? 0 : l] = 0;
                pid_t pid = fork();
                if( pid == 0 )
                {
                    if( !freopen( "/dev/null", "w", stdout ) )
                        _exit( 9 );
                    execl( self, self, "replay", replay.c_str(), (char *)nullptr );
                    _exit( 9 );
                }
                int st = 0;
                while( waitpid( pid, &st, 0 ) < 0 ) {}
                if( !WIFEXITED( st ) || ( WEXITSTATUS( st ) != 1 && !( WEXITSTATUS( st ) == 4 && id == "P01" ) ) )
                {
                    fprintf( stderr, "replay of %s did not reproduce the violation (status %d)\n", replay.c_str(), st );
                    rc = 3;
                }
            }
            if( rc != 3 )
            {
                printf( "minimised from %zu to %zu choices in %llu runs: %s\n", orig, ch.size(), (unsigned long long)tries,
                        vmsg.c_str() );
                printf( "VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str() );
                rc = 1;
            }
        }
    }
    else if( S.errors || lost || !err.empty() )
    {
        fprintf( stderr, "%llu runs without a verdict: %s\n", (unsigned long long)S.errors, err.c_str() );
        rc = 3;
    }
    double wall = now() - t0;

    // evidence
    std::ostringstream o;
    o << "{\n \"property\": " << jstr( id ) << ",\n \"tier\": \"" << ( thorough ? "thorough" : "quick" ) << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"wall_s\": " << strf( "%.3f", wall )
      << ",\n \"violations\": " << ( rc == 1 ? 1 : 0 ) << ",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << S.runs << ",\n  \"distinct_nontrivial\": " << hs.size()
      << ",\n  \"nontrivial_runs\": " << S.nontrivial << ",\n  \"rule\": " << jstr( p->rule ) << ",\n  \"samples\": [";
    for( size_t i = 0; i < samples.size(); i++ )
        o << ( i ? ", " : "" ) << jstr( samples[i] );
    o << "],\n  \"search_wall_s\": " << strf( "%.3f", t_search )
      << ",\n  \"seeds_per_hour\": " << strf( "%.0f", double( S.runs ) / std::max( t_search, 0.001 ) * 3600 )
      << ",\n  \"simulated_seconds\": " << strf( "%.3f", double( S.sim_ns ) / 1e9 )
      << ",\n  \"simulated_processes\": " << S.procs << ",\n  \"model_iterations_checked\": " << S.iterations
      << ",\n  \"file_operations\": " << S.ops << ",\n  \"random_draws\": " << S.draws << ",\n  \"basic_blocks_executed\": " << S.steps
      << ",\n  \"distinct_schedules\": " << sc.size() << ",\n  \"distinct_end_states\": " << stt.size()
      << ",\n  \"distinct_blocks_reached\": " << blocks << ",\n  \"faults_injected\": {";
    bool first = true;
    for( int j = 0; j < Counters::N; j++ )
        if( S.cnt.v[j] )
        {
            o << ( first ? "" : ", " ) << jstr( counter_names[j] ) << ": " << S.cnt.v[j];
            first = false;
        }
    o << "},\n  \"probes\": {";
    for( size_t j = 0; j < p->probes.size(); j++ )
        o << ( j ? ", " : "" ) << jstr( p->probes[j] ) << ": " << S.probes[j];
    o << "},\n  \"real_code\": " << jstr( p->real_code ) << ",\n  \"stubs\": " << jstr( p->stubs ) << ",\n  \"known_findings\": [";
    first = true;
    for( auto & k : known )
    {
        o << ( first ? "" : ", " ) << jstr( k );
        first = false;
    }
    o << "]\n },\n \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"the simulated disk keeps what write() "
         "accepted when a process is killed (power loss of the page cache is not simulated)\"]\n}\n";
    string ev = verif + "/evidence/" + id + ".json";
    {
        std::ofstream f( ev + ".tmp" );
        f << o.str();
    }
    rename( ( ev + ".tmp" ).c_str(), ev.c_str() );
    for( size_t j = 0; j < p->probes.size(); j++ )
        if( rc == 0 && !S.probes[j] && !getenv( "SIM_RUNS" ) )
            printf( "note: probe '%s' was never hit\n", p->probes[j] );
    printf( "%s: %llu runs, %zu distinct non-trivial, %.1f s, rc %d\n", id.c_str(), (unsigned long long)S.runs, hs.size(), wall, rc );
    return rc;
}

int main( int argc, char ** argv )
{
    // no address-space randomisation: a run is a function of its choices alone
    if( !getenv( "SIM_NOASLR" ) )
    {
        int per = personality( 0xffffffff );
        setenv( "SIM_NOASLR", "1", 1 );
        if( per != -1 && !( per & ADDR_NO_RANDOMIZE ) && personality( unsigned( per ) | ADDR_NO_RANDOMIZE ) != -1 )
            execv( "/proc/self/exe", argv );
    }
    save_image( "libsut-" );
    string cmd = argc > 1 ? argv[1] : "";
    if( cmd == "list" )
    {
        for( auto & p : registry() )
            printf( "%s\n", p.id );
        return 0;
    }
    if( cmd == "check" && argc >= 6 ) // check ID VERIF TIER SEED
        return cmd_check( argv[2], argv[3], string( argv[4] ) == "thorough", strtoull( argv[5], nullptr, 10 ) );
    if( cmd == "replay" && argc >= 3 )
    {
        string id, cls;
        vector<u64> ch;
        u64 hash = 0;
        if( !read_replay( argv[2], id, ch, cls, hash ) || !find( id ) )
        {
            fprintf( stderr, "not a replay file: %s\n", argv[2] );
            return 3;
        }
        shared = new_shared();
        run_one( *find( id ), 0, &ch, argc > 3 );
        if( argc > 3 )
            fwrite( shared->log, 1, shared->log_len, stdout );
        if( shared->state != 2 )
        {
            printf( "no violation (state %d %s)\n", shared->state, shared->msg );
            return shared->state == 1 ? 0 : 3;
        }
        printf( "VIOLATION property=%s replay=%s\n[%s] %s\nhash %llu (recorded %llu)\n", id.c_str(), argv[2], shared->cls,
                shared->msg, (unsigned long long)shared->hash, (unsigned long long)hash );
        if( cls != one_line( shared->cls ) )
            return 3;
        // the recorded hash is of a verbose run; note() hashes the same bytes either way
        return shared->hash == hash ? 1 : 4;
    }
    if( cmd == "one" && argc >= 5 ) // one ID SEED INDEX
    {
        shared = new_shared();
        run_one( *find( argv[2] ), run_seed( strtoull( argv[3], nullptr, 10 ), argv[2], strtoull( argv[4], nullptr, 10 ) ), nullptr, true );
        fwrite( shared->log, 1, shared->log_len, stdout );
        printf( "state %d [%s] %s\nhash %llu choices %llu\n", shared->state, shared->cls, shared->msg,
                (unsigned long long)shared->hash, (unsigned long long)shared->n_choices );
        return 0;
    }
    if( cmd == "hashes" && argc >= 6 ) // hashes ID SEED FROM TO: for the determinism test
    {
        shared = new_shared();
        for( u64 i = strtoull( argv[4], nullptr, 10 ); i < strtoull( argv[5], nullptr, 10 ); i++ )
        {
            run_one( *find( argv[2] ), run_seed( strtoull( argv[3], nullptr, 10 ), argv[2], i ), nullptr, false );
            printf( "%s %llu %d %llu %llu %llu %llu %llu\n", argv[2], (unsigned long long)i, shared->state,
                    (unsigned long long)shared->hash, (unsigned long long)shared->sched_hash,
                    (unsigned long long)shared->state_hash, (unsigned long long)shared->n_choices,
                    (unsigned long long)shared->steps );
        }
        return 0;
    }
    fprintf( stderr, "usage: sim list | check ID VERIF TIER SEED | replay FILE [v] | one ID SEED INDEX | hashes ID SEED FROM TO\n" );
    return 2;
}
