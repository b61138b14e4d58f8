// Deterministic simulator for libIGES: common definitions.
//
// One simulated run = one Script, executed in one process, with every source of
// nondeterminism (disk, clock, allocator, locale, thread scheduling) behind the
// seams declared here.  A Script is produced from one 64-bit seed by a scenario
// generator and is self-contained: replaying its text reproduces the run.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull ) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    // uniform in [0,n)
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    long range( long a, long b ) { return a + (long) below( (uint64_t)( b - a + 1 ) ); }
    bool chance( int num, int den ) { return (int) below( den ) < num; }
    double unit() { return (double) ( next() >> 11 ) / 9007199254740992.0; }
    double real( double a, double b ) { return a + ( b - a ) * unit(); }
    template<class T> const T& pick( const std::vector<T>& v ) { return v[below( v.size() )]; }
};

inline uint64_t hash64( const std::string& s, uint64_t h = 1469598103934665603ull )
{
    for( unsigned char c : s )
        h = ( h ^ c ) * 1099511628211ull;
    return h;
}
inline uint64_t mix64( uint64_t a, uint64_t b )
{
    uint64_t z = a ^ ( b * 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    return z ^ ( z >> 27 );
}

// A fault injected while one client operation runs.
//   cls 'o' open, 'r' read, 'w' write, 'c' close, 's' seek, 'a' allocation
//   at  = which call of that class within the operation (1-based)
struct Fault
{
    char cls = 0;
    long at = 0;
    std::string kind;
    long arg = 0;
    std::string str() const;
};

struct Op
{
    std::string name;
    std::map<std::string, std::string> a;
    std::vector<Fault> faults;

    Op() {}
    explicit Op( const std::string& n ) : name( n ) {}
    Op& set( const std::string& k, long v ) { a[k] = std::to_string( v ); return *this; }
    Op& set( const std::string& k, const std::string& v ) { a[k] = v; return *this; }
    Op& fault( char cls, long at, const std::string& kind, long arg = 0 )
    {
        Fault f; f.cls = cls; f.at = at; f.kind = kind; f.arg = arg; faults.push_back( f ); return *this;
    }
    long num( const std::string& k, long def = 0 ) const
    {
        auto i = a.find( k );
        return i == a.end() ? def : strtol( i->second.c_str(), nullptr, 10 );
    }
    uint64_t u64( const std::string& k ) const
    {
        auto i = a.find( k );
        return i == a.end() ? 0 : strtoull( i->second.c_str(), nullptr, 10 );
    }
    std::string txt( const std::string& k ) const { auto i = a.find( k ); return i == a.end() ? "" : i->second; }
    bool has( const std::string& k ) const { return a.count( k ) != 0; }
    std::string str() const;
};

struct Script
{
    std::string prop;
    uint64_t seed = 0;
    std::vector<Op> ops;
    std::string str() const;
    static bool parse( const std::string& text, Script& out, std::string& err );
};

// Outcome of a run
struct Violation { std::string sig, detail; };

// thrown by scenario code to stop a run at the first violation
struct Fail { Violation v; };
[[noreturn]] void fail( const std::string& sig, const std::string& detail );
#define REQUIRE( cond, sig, detail ) do { if( !( cond ) ) fail( sig, detail ); } while( 0 )

struct Stats
{
    std::map<std::string, uint64_t> faults;     // fault kind -> times it actually fired
    std::map<std::string, uint64_t> ops;        // client operation -> count
    std::map<std::string, uint64_t> probes;     // named reach counters (rare events really reached)
    uint64_t runs = 0, sim_seconds = 0, io_calls = 0, nontrivial = 0;
    std::set<uint64_t> states;                  // distinct outcome traces
    std::vector<std::string> samples;
};
extern Stats g_stats;
// per-run outcome trace: everything hashed here defines "distinct interleaving/state"
void trace( const std::string& ev );
uint64_t trace_hash();
void trace_reset();
extern bool g_verbose;
void note( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
std::string strf( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

namespace seam
{
    struct Inode
    {
        size_t high = 0;                            // bytes delivered to readers so far (highest offset)
        std::string data;
        bool readable = true, writable = true;
        uint64_t version = 0;       // bumped on every modification (data or truncation)
    };

    // virtual disk: all paths under /sim/
    extern std::map<std::string, std::shared_ptr<Inode>> files;

    void reset();                                   // fresh machine
    void arm( const Op& op );                       // install the op's faults and I/O shape; resets counters
    void disarm();
    bool exists( const std::string& path );
    std::string get( const std::string& path );
    void put( const std::string& path, const std::string& data );
    void remove( const std::string& path );
    int  open_handles();                            // virtual files not yet closed
    bool fired();                                   // did any fault fire since arm()
    bool crashed();                                 // did a crash fire since arm()
    bool io_error_fired();                          // did a fault fire which makes a system call fail / lose data
    bool appeared();                                // did another process create a file since arm()
    size_t delivered( const std::string& path );    // highest offset ever handed to a reader of this file
    long calls( char cls );                         // calls of this class since arm()

    // clock
    extern bool clock_on;
    extern int64_t now;                             // simulated seconds since epoch
    extern std::vector<int64_t> clock_steps;        // step applied after each reading (cycled); empty = frozen
    void set_clock( int64_t t, const std::vector<int64_t>& steps );
    extern uint64_t clock_reads;
    extern std::vector<int64_t> readings;           // what the clock showed since set_clock()

    // allocator
    extern unsigned char junk;                      // fill byte for fresh memory
    extern bool junk_on;
    extern int spacer;                              // bytes added in front pattern (address perturbation)
    extern long live_allocs;                        // live operator-new blocks
    extern long live_bytes;
    extern uint64_t alloc_limit;                    // single allocation limit (bad_alloc beyond)

    // cooperative scheduling hook: called at every seam crossing when set
    extern void ( *yield_hook )( const char* where );

    // everything above except the allocator settings belongs to one simulated
    // machine; two machines are interleaved by exchanging their states
    struct State;
    State* new_state();
    void free_state( State* );
    void swap_state( State* );
}

// called between two operations of a script by every scenario
extern void ( *step_hook )();
inline void step() { if( step_hook ) step_hook(); }

// the outcome trace of one simulated machine
struct TraceState { uint64_t h = 0x5157, n = 0; std::vector<std::string>* log = nullptr; };
void swap_trace( TraceState& t );

// scenarios ---------------------------------------------------------------
struct Scenario
{
    const char* prop;
    void ( *gen )( uint64_t seed, bool thorough, Script& out );
    void ( *run )( const Script& s );               // throws Fail
    const char* rule;                               // what makes a run nontrivial
};
std::vector<Scenario>& scenarios();
struct RegScenario { RegScenario( const Scenario& s ) { scenarios().push_back( s ); } };

#endif
