// Command line of the simulator.
//   sim.bin props
//   sim.bin gen PROP SEED [thorough]          print the script of one seed
//   sim.bin run PROP BASE FIRST STEP COUNT SECONDS [thorough]
//   sim.bin replay FILE                       run one script; prints its outcome
#include "sim.h"
#include <cstring>
#include <ctime>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <malloc.h>
#include <new>

static FILE* out;       // results; the library's own chatter goes elsewhere
static char hangmsg[] = "HANG\n";
static void on_hang( int ) { ssize_t n = write( fileno( out ), hangmsg, 5 ); (void) n; _exit( 77 ); }

static void watchdog( int sec )
{
    struct itimerval t;
    memset( &t, 0, sizeof t );
    t.it_value.tv_sec = sec;
    setitimer( ITIMER_PROF, &t, nullptr );
}

static std::string one_line( std::string s )
{
    for( auto& c : s ) if( c == '\n' ) c = '\x1f';
    return s;
}

static const Scenario* find( const std::string& p )
{
    for( auto& s : scenarios() ) if( p == s.prop ) return &s;
    return nullptr;
}

// returns true when the property held
static bool run_one( const Scenario& sc, const Script& s, Violation& v )
{
    trace_reset();
    seam::reset();
    bool ok = true;
    watchdog( 20 );
    try { sc.run( s ); }
    catch( Fail& f ) { v = f.v; ok = false; }
    catch( std::bad_alloc& ) { v.sig = "exception:bad_alloc"; v.detail = "std::bad_alloc escaped"; ok = false; }
    catch( std::exception& e ) { v.sig = "exception:other"; v.detail = std::string( "exception escaped: " ) + e.what(); ok = false; }
    catch( ... ) { v.sig = "exception:unknown"; v.detail = "exception escaped"; ok = false; }
    watchdog( 0 );
    seam::reset();
    if( !ok ) trace( "outcome " + v.sig );
    return ok;
}

static std::string js( const std::string& s )
{
    std::string o = "\"";
    for( unsigned char c : s )
        if( c == '"' || c == '\\' ) { o += '\\'; o += c; }
        else if( c == '\n' ) o += "\\n";
        else if( c < 32 || c > 126 ) o += strf( "\\u%04x", c );
        else o += c;
    return o + "\"";
}
static std::string jmap( const std::map<std::string, uint64_t>& m )
{
    std::string s = "{";
    for( auto& k : m ) s += ( s.size() > 1 ? "," : "" ) + js( k.first ) + ":" + std::to_string( k.second );
    return s + "}";
}

static void flush_stats()
{
    std::string st;
    for( uint64_t h : g_stats.states ) st += strf( "%016llx,", (unsigned long long) h );
    std::string sm;
    for( auto& s : g_stats.samples ) sm += ( sm.empty() ? "" : "," ) + js( s );
    fprintf( out, "STATS {\"runs\":%llu,\"nontrivial\":%llu,\"sim_seconds\":%llu,\"io_calls\":%llu,\"faults\":%s,\"ops\":%s,\"probes\":%s,\"states\":\"%s\",\"samples\":[%s]}\n",
             (unsigned long long) g_stats.runs, (unsigned long long) g_stats.nontrivial, (unsigned long long) g_stats.sim_seconds, (unsigned long long) g_stats.io_calls,
             jmap( g_stats.faults ).c_str(), jmap( g_stats.ops ).c_str(), jmap( g_stats.probes ).c_str(), st.c_str(), sm.c_str() );
    fflush( out );
}

static double wall() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

int main( int argc, char** argv )
{
    if( argc < 2 ) return 2;
    std::string cmd = argv[1];
    out = fdopen( dup( 1 ), "w" );
    setvbuf( out, nullptr, _IOLBF, 1 << 16 );
    g_verbose = getenv( "SIM_VERBOSE" ) != nullptr;
    signal( SIGPROF, on_hang );
    signal( SIGPIPE, SIG_IGN );
    // the library reports problems on the standard streams; they are not part of any property
    static std::ofstream* nul = new std::ofstream( "/dev/null" );
    if( !getenv( "SIM_CHATTER" ) ) { std::cerr.rdbuf( nul->rdbuf() ); std::cout.rdbuf( nul->rdbuf() ); }

    if( cmd == "props" ) { for( auto& s : scenarios() ) fprintf( out, "%s\t%s\n", s.prop, s.rule ); return 0; }
    if( cmd == "gen" && argc >= 4 )
    {
        const Scenario* sc = find( argv[2] );
        if( !sc ) return 2;
        Script s;
        uint64_t seed = strtoull( argv[3], nullptr, 10 );
        s.prop = sc->prop; s.seed = seed;
        sc->gen( seed, argc > 4, s );
        fputs( s.str().c_str(), out );
        fclose( out );
        return 0;
    }
    if( cmd == "genlist" && argc >= 5 )
    {   // several runs, as one history
        const Scenario* sc = find( argv[2] );
        if( !sc ) return 2;
        std::stringstream l( argv[4] );
        std::string item;
        while( std::getline( l, item, ',' ) )
        {
            Script s;
            s.prop = sc->prop;
            s.seed = mix64( strtoull( argv[3], nullptr, 10 ) * 1000003 + 17, strtoull( item.c_str(), nullptr, 10 ) ) >> 1;
            sc->gen( s.seed, argc > 5, s );
            fputs( s.str().c_str(), out );
        }
        fclose( out );
        return 0;
    }
    if( cmd == "replay" && argc >= 3 )
    {
        std::ifstream f( argv[2] );
        std::stringstream b; b << f.rdbuf();
        f.close();
        // one file may hold a history of runs; the outcome of the last one counts
        std::vector<std::string> parts;
        std::string line;
        while( std::getline( b, line ) )
        {
            if( line.compare( 0, 5, "prop " ) == 0 || parts.empty() ) { if( parts.empty() || parts.back().find( "prop " ) != std::string::npos ) parts.push_back( "" ); }
            parts.back() += line + "\n";
        }
        for( size_t i = 0; i < parts.size(); ++i )
        {
            Script s; std::string err;
            if( !Script::parse( parts[i], s, err ) ) { fprintf( out, "PARSE %s\n", err.c_str() ); return 2; }
            const Scenario* sc = find( s.prop );
            if( !sc ) { fprintf( out, "PARSE unknown property\n" ); return 2; }
            Violation v;
            if( i + 1 == parts.size() ) fprintf( out, "B %llu\n", (unsigned long long) s.seed );
            bool ok = run_one( *sc, s, v );
            if( i + 1 < parts.size() ) continue;
            if( ok ) fprintf( out, "E %llu %016llx\n", (unsigned long long) s.seed, (unsigned long long) trace_hash() );
            else fprintf( out, "V %llu %016llx %s | %s\n", (unsigned long long) s.seed, (unsigned long long) trace_hash(), v.sig.c_str(), one_line( v.detail ).c_str() );
        }
        fflush( out );
        _exit( 0 );
    }
    if( cmd == "run" && argc >= 8 )
    {
        const Scenario* sc = find( argv[2] );
        if( !sc ) return 2;
        uint64_t base = strtoull( argv[3], nullptr, 10 ), first = strtoull( argv[4], nullptr, 10 ), step = strtoull( argv[5], nullptr, 10 ), count = strtoull( argv[6], nullptr, 10 );
        double limit = atof( argv[7] ), t0 = wall();
        bool thorough = argc > 8;
        for( uint64_t k = 0; k < count && wall() - t0 < limit; ++k )
        {
            uint64_t idx = first + k * step;
            uint64_t seed = mix64( base * 1000003 + 17, idx ) >> 1;
            Script s;
            s.prop = sc->prop; s.seed = seed;
            sc->gen( seed, thorough, s );
            fprintf( out, "B %llu %llu\n", (unsigned long long) idx, (unsigned long long) seed );
            Violation v;
            bool ok = run_one( *sc, s, v );
            ++g_stats.runs;
            for( auto& o : s.ops ) ++g_stats.ops[o.name];
            g_stats.states.insert( trace_hash() );
            if( k % 997 == 3 && g_stats.samples.size() < 3 ) g_stats.samples.push_back( s.str().substr( 0, 1500 ) );
            if( ok ) fprintf( out, "E %llu %016llx\n", (unsigned long long) idx, (unsigned long long) trace_hash() );
            else fprintf( out, "V %llu %llu %016llx %s | %s\n", (unsigned long long) idx, (unsigned long long) seed, (unsigned long long) trace_hash(), v.sig.c_str(), one_line( v.detail ).c_str() );
        }
        flush_stats();
        _exit( 0 );
    }
    return 2;
}
