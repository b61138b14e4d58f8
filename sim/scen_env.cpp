// The surroundings of the library: the process it runs in must neither influence
// what it does nor be changed by it.
//   D01 results depend on nothing but the history of the document (memory contents,
//       addresses, time zone, earlier and simultaneous work on other documents)
//   L01 results do not depend on the locale, and the locale is left as it was
//   T01 time stamps
#include "scen.h"
#include <algorithm>
#include <clocale>
#include <condition_variable>
#include <ctime>
#include <locale>
#include <mutex>
#include <sstream>
#include <thread>

namespace
{
long sd( Rng& r ) { return (long) ( r.next() >> 2 ); }

const Scenario* scenOf( const std::string& p )
{
    for( auto& s : scenarios() ) if( p == s.prop ) return &s;
    return nullptr;
}

// the parts of a script: "a.load ..." belongs to history a
Script part( const Script& s, const std::string& who )
{
    Script o;
    o.seed = s.seed;
    for( auto& op : s.ops )
    {
        if( op.name == "env" ) o.prop = op.txt( "prop_" + who );
        else if( op.name.compare( 0, 2, who + "." ) == 0 )
        {
            Op q = op;
            q.name = op.name.substr( 2 );
            o.ops.push_back( q );
        }
    }
    return o;
}
void addPart( Script& s, const std::string& who, const char* prop, uint64_t seed, bool th )
{
    Script t;
    scenOf( prop )->gen( seed, th, t );
    for( auto op : t.ops )
    {
        if( op.name == "export" || op.name == "name" ) continue;    // names made up are different every time, by design
        op.name = who + "." + op.name;
        s.ops.push_back( op );
    }
}

typedef std::vector<std::string> Log;

// runs one history on the machine which is live; everything observable goes to the log
void play( const Script& s, Log& log )
{
    const Scenario* sc = scenOf( s.prop );
    if( !sc ) return;
    std::string end = "held";
    uint64_t nt = g_stats.nontrivial;
    double tol = g_relTol;
    try { sc->run( s ); }
    catch( Fail& f ) { end = "FAIL " + f.v.sig + " " + f.v.detail; }
    catch( std::exception& e ) { end = std::string( "EXCEPTION " ) + e.what(); }
    g_relTol = tol;
    g_stats.nontrivial = nt;
    log.push_back( end );
    for( auto& f : seam::files ) log.push_back( strf( "%s %zu bytes %016llx", f.first.c_str(), f.second->data.size(), (unsigned long long) hash64( f.second->data ) ) );
    log.push_back( strf( "%d files open", seam::open_handles() ) );
}
std::string logDiff( const Log& a, const Log& b )
{
    for( size_t i = 0; i < std::max( a.size(), b.size() ); ++i )
    {
        std::string x = i < a.size() ? a[i] : "<end>", y = i < b.size() ? b[i] : "<end>";
        if( x != y ) return strf( "event %zu:\n  %s\n  %s", i, x.substr( 0, 600 ).c_str(), y.substr( 0, 600 ).c_str() );
    }
    return "";
}

// ---------------------------------------------------------------- two machines in one process
struct Pair
{
    std::mutex m;
    std::condition_variable cv;
    seam::State* st[2];
    TraceState tr[2];
    double tol[2] = { 0, 0 };
    bool done[2] = { false, false };
    int cur = 0;
    Rng r;
    int num = 1, den = 2;           // how often to switch where it is possible
    long switches = 0;
    explicit Pair( uint64_t s ) : r( s ) {}
};
Pair* g_pair = nullptr;

void exchange( int from, int to )
{
    seam::swap_state( g_pair->st[from] );
    seam::swap_state( g_pair->st[to] );
    swap_trace( g_pair->tr[from] );
    swap_trace( g_pair->tr[to] );
    g_pair->tol[from] = g_relTol;
    g_relTol = g_pair->tol[to];
}
void maybeSwitch()
{
    Pair& p = *g_pair;
    int me = p.cur, o = 1 - me;
    if( p.done[o] || !p.r.chance( p.num, p.den ) ) return;
    std::unique_lock<std::mutex> l( p.m );
    ++p.switches;
    exchange( me, o );
    p.cur = o;
    p.cv.notify_all();
    p.cv.wait( l, [&] { return p.cur == me; } );
}
void onSeam( const char* ) { maybeSwitch(); }

void both( const Script& a, const Script& b, uint64_t sched, int num, int den, Log& la, Log& lb )
{
    Pair p( sched );
    p.num = num; p.den = den;
    g_pair = &p;
    const Script* s[2] = { &a, &b };
    Log* log[2] = { &la, &lb };
    seam::State* outer = seam::new_state();
    TraceState outerTrace;
    double outerTol = g_relTol;
    seam::swap_state( outer );
    for( int i = 0; i < 2; ++i ) { p.st[i] = seam::new_state(); p.tr[i].log = log[i]; p.tol[i] = outerTol; }
    swap_trace( outerTrace );
    // fibre 0 is live first
    seam::swap_state( p.st[0] );
    swap_trace( p.tr[0] );
    auto body = [&]( int me )
    {
        { std::unique_lock<std::mutex> l( p.m ); p.cv.wait( l, [&] { return p.cur == me; } ); }
        play( *s[me], *log[me] );
        std::unique_lock<std::mutex> l( p.m );
        p.done[me] = true;
        if( !p.done[1 - me] )
        {
            exchange( me, 1 - me );
            p.cur = 1 - me;
            p.cv.notify_all();
        }
    };
    seam::yield_hook = onSeam;
    step_hook = maybeSwitch;
    {
        std::thread t0( body, 0 ), t1( body, 1 );
        t0.join();
        t1.join();
    }
    seam::yield_hook = nullptr;
    step_hook = nullptr;
    g_stats.probes["switches"] += p.switches;
    int last = p.cur;
    seam::swap_state( p.st[last] );
    swap_trace( p.tr[last] );
    swap_trace( outerTrace );
    g_relTol = outerTol;
    for( int i = 0; i < 2; ++i ) seam::free_state( p.st[i] );
    seam::swap_state( outer );
    seam::free_state( outer );
    g_pair = nullptr;
}

void alone( const Script& a, Log& la )
{
    TraceState t;
    t.log = &la;
    seam::State* m = seam::new_state();
    seam::swap_state( m );
    swap_trace( t );
    play( a, la );
    swap_trace( t );
    seam::swap_state( m );
    seam::free_state( m );
}

const char* const ZONES[] = { "UTC", "<+1245>-12:45", "PST8PDT", "<-03>3", "right" };

void runD01( const Script& s )
{
    Script a = part( s, "a" ), b = part( s, "b" );
    Op env;
    for( auto& op : s.ops ) if( op.name == "env" ) env = op;
    Log a1, b1, a2, b2, a3;
    // each history on a machine of its own
    seam::junk_on = true;
    seam::junk = 0;
    setenv( "TZ", "UTC", 1 ); tzset();
    alone( a, a1 );
    alone( b, b1 );
    // the same histories in one process, step by step and call by call, in other memory
    seam::junk = (unsigned char) env.num( "junk", 0xA5 );
    seam::spacer = (int) env.num( "spacer", 1 );
    setenv( "TZ", ZONES[env.num( "zone" ) % 5], 1 ); tzset();
    both( a, b, env.u64( "sched" ), 1, 1 + (int) env.num( "den", 1 ), a2, b2 );
    setenv( "TZ", "UTC", 1 ); tzset();
    seam::spacer = 0;
    seam::junk_on = false;
    for( auto& x : a1 ) trace( x );
    REQUIRE( a1 == a2, "depends-on-surroundings", "the same history of a document, first alone, then with other work going on in the process:\n" + logDiff( a1, a2 ) );
    REQUIRE( b1 == b2, "depends-on-surroundings", "the same history of a document, first alone, then with other work going on in the process:\n" + logDiff( b1, b2 ) );
    if( a1.size() > 3 && b1.size() > 3 ) Nontrivial();
    ++g_stats.probes["compared"];
}
const char* const BASE[] = { "W05", "W05", "M01", "M02", "M03", "M05", "R01", "R02", "W02", "R03", "W04" };
void genD01( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    const char* pa = BASE[r.below( 11 )];
    const char* pb = BASE[r.below( 11 )];
    Op e( "env" );
    e.set( "prop_a", std::string( pa ) ).set( "prop_b", std::string( pb ) );
    e.set( "junk", r.pick( std::vector<long>{ 0xA5, 0xFF, 0x20, 0x01, 0x7F, 0xBE } ) ).set( "spacer", 1 + r.below( 1000 ) ).set( "sched", sd( r ) ).set( "den", r.below( 6 ) );
    if( r.chance( 1, 3 ) ) e.set( "zone", r.below( 5 ) );
    s.ops.push_back( e );
    addPart( s, "a", pa, r.next(), th );
    addPart( s, "b", pb, r.next(), th );
}
RegScenario rD01( Scenario{ "D01", genD01, runD01, "a run is non-trivial when both histories produced something and were compared with their undisturbed twins" } );

// ---------------------------------------------------------------- locale
struct Punct : std::numpunct<char>
{
    char dp, ts; std::string gr;
    Punct( char d, char t, const std::string& g ) : dp( d ), ts( t ), gr( g ) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return gr; }
};
const char* const CLOC[] = { "C", "de_DE.UTF-8", "fr_CH.UTF-8", "ps_AF.UTF-8" };

std::string fingerprint()
{
    std::string s = setlocale( LC_ALL, nullptr );
    char b[64];
    snprintf( b, sizeof b, "%.3f", 12345.678 );
    std::ostringstream o;
    o << 1234567.25 << ' ' << 1234567 << ' ' << std::locale().name();
    return s + " | " + b + " | " + o.str();
}
std::string g_print;
void checkLocale()
{
    std::string f = fingerprint();
    REQUIRE( f == g_print, "locale-changed", "locale of the process\n  before: " + g_print + "\n  after:  " + f );
}
void runL01( const Script& s )
{
    Script a = part( s, "a" );
    Op env;
    for( auto& op : s.ops ) if( op.name == "env" ) env = op;
    Log l1, l2;
    alone( a, l1 );
    std::string cn = CLOC[env.num( "c" ) % 4];
    bool ok = setlocale( LC_ALL, "C" ) != nullptr;
    std::locale before = std::locale::classic(), want = before;
    switch( env.num( "cpp" ) )
    {
        case 1: want = std::locale( before, new Punct( ',', '.', "\3" ) ); break;
        case 2: want = std::locale( before, new Punct( '.', '\'', "\3" ) ); break;
        case 3: want = std::locale( before, new Punct( ';', ' ', "\1" ) ); break;
        case 4: try { want = std::locale( cn ); } catch( ... ) { ok = false; } break;
        case 5: try { want = std::locale( std::locale( cn ), new Punct( ',', '.', "\2\3" ) ); } catch( ... ) { ok = false; } break;
    }
    std::locale::global( want );
    if( env.num( "conly" ) || env.num( "cpp" ) != 4 ) ok = setlocale( env.num( "numeric" ) ? LC_NUMERIC : LC_ALL, cn.c_str() ) != nullptr && ok;
    if( !ok ) ++g_stats.probes["locale-missing"];
    g_print = fingerprint();
    step_hook = checkLocale;
    bool bad = false;
    Violation v;
    std::string after;
    try { alone( a, l2 ); after = fingerprint(); }
    catch( Fail& f ) { bad = true; v = f.v; }
    step_hook = nullptr;
    std::locale::global( std::locale::classic() );
    setlocale( LC_ALL, "C" );
    if( bad ) fail( v.sig, v.detail );
    for( auto& x : l1 ) trace( x );
    for( auto& x : l2 ) if( x.find( "locale-changed" ) != std::string::npos ) fail( "locale-changed", x );
    REQUIRE( after == g_print, "locale-changed", "locale of the process\n  before: " + g_print + "\n  after:  " + after );
    REQUIRE( l1 == l2, "depends-on-locale", "the same history in the C locale and in " + g_print + ":\n" + logDiff( l1, l2 ) );
    ++g_stats.probes["locale " + cn + strf( "/%ld", env.num( "cpp" ) )];
    if( l1.size() > 3 && ok ) Nontrivial();
}
void genL01( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    static const char* const B[] = { "W05", "W05", "M01", "M03", "M04", "M05", "R01", "R02", "W01", "W02", "W03", "R03" };
    const char* pa = B[r.below( 12 )];
    Op e( "env" );
    e.set( "prop_a", std::string( pa ) );
    do e.set( "c", r.below( 4 ) ).set( "cpp", r.below( 6 ) ); while( e.num( "c" ) == 0 && ( e.num( "cpp" ) == 0 || e.num( "cpp" ) > 3 ) );
    if( r.chance( 1, 3 ) ) e.set( "numeric", 1 );
    if( r.chance( 1, 3 ) ) e.set( "conly", 1 );
    s.ops.push_back( e );
    addPart( s, "a", pa, r.next(), th );
}
RegScenario rL01( Scenario{ "L01", genL01, runL01, "a run is non-trivial when the history was played in a locale other than C and compared with its twin" } );

// ---------------------------------------------------------------- time
std::string stamp( int64_t t )
{
    // civil date from days, independent of the C library
    int64_t d = t >= 0 ? t / 86400 : -( ( -t + 86399 ) / 86400 ), s = t - d * 86400;
    int64_t z = d + 719468, era = ( z >= 0 ? z : z - 146096 ) / 146097;
    int64_t doe = z - era * 146097, yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365, y = yoe + era * 400;
    int64_t doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 ), mp = ( 5 * doy + 2 ) / 153;
    int64_t dd = doy - ( 153 * mp + 2 ) / 5 + 1, mm = mp < 10 ? mp + 3 : mp - 9;
    if( mm <= 2 ) ++y;
    return strf( "%04lld%02lld%02lld.%02lld%02lld%02lld", (long long) y, (long long) mm, (long long) dd, (long long) s / 3600, (long long) s / 60 % 60, (long long) s % 60 );
}
std::string validDate( Rng& r, bool century )
{
    static const int D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    int y = century ? 1978 + r.below( 60 ) : r.below( 100 ), m = r.below( 12 ), d = 1 + r.below( D[m] );
    if( r.chance( 1, 6 ) ) { y = century ? 2000 + 4 * (int) r.below( 6 ) : 96; m = 1; d = 29; }
    return strf( "%0*d%02d%02d.%02d%02d%02d", century ? 4 : 2, y, m + 1, d, (int) r.below( 24 ), (int) r.below( 60 ), r.chance( 1, 8 ) ? 60 : (int) r.below( 60 ) );    // 60: a leap second
}
void runT01( const Script& s )
{
    std::unique_ptr<IGES> doc;
    std::string created;        // a creation date the document has, if any
    bool filled = false, frozen = false;
    DocM ref;
    seam::set_clock( 1700000000, {} );
    setenv( "TZ", "UTC", 1 ); tzset();
    auto setRef = [&]()
    {
        std::string e;
        seam::State* m = nullptr; (void) m;
        REQUIRE( doc->Write( "/sim/ref/out.igs", true ), "setup", "reference save" );
        REQUIRE( ParseFile( "/sim/ref/out.igs", ref, e ), "setup", e );
    };
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" )
        {
            doc.reset( new IGES );
            DocM m;
            seam::put( "/sim/in.igs", TextFor( op, &m ) );
            REQUIRE( doc->Read( "/sim/in.igs" ), "setup", "valid file refused" );
            filled = !ExpectDoc( m ).ents.empty();
            created = m.g.date;
            if( filled ) setRef();
        }
        else if( op.name == "new" )
        {
            doc.reset( new IGES );
            IGES_ENTITY* p = nullptr;
            REQUIRE( doc->NewEntity( 110, &p ) && p, "setup", "NewEntity" );
            Rng r( op.u64( "seed" ) );
            created.clear();
            if( op.num( "date" ) == 1 ) created = validDate( r, true );
            if( op.num( "date" ) == 2 ) created = validDate( r, false );
            doc->globalData.creationDate = created;
            if( op.num( "date" ) == 3 ) doc->globalData.creationDate = r.pick( std::vector<std::string>{ "yesterday", "2015", "20151301.000000", "20150132.000000", "20150131.250000", "20150131.006100", "20150131 000000", "2015013100000000", "..............." } );
            filled = true;
            setRef();
        }
        else if( op.name == "clock" )
        {
            std::vector<int64_t> st;
            Rng r( op.u64( "seed" ) );
            int n = op.num( "n" );
            for( int i = 0; i < n; ++i ) st.push_back( r.chance( 1, 3 ) ? 0 : r.chance( 1, 2 ) ? r.range( -5, 5 ) : r.chance( 1, 2 ) ? r.range( -100000, 100000 ) : r.range( -40000000, 40000000 ) );
            int64_t t = op.num( "near" ) ? (int64_t) ( op.num( "t" ) / 86400 * 86400 - 1 ) : (int64_t) op.num( "t" );
            seam::set_clock( t, st );
            frozen = st.empty();
            setenv( "TZ", ZONES[op.num( "zone" ) % 5], 1 ); tzset();
        }
        else if( op.name == "save" && doc && filled )
        {
            seam::readings.clear();
            bool ok;
            { Armed a( op ); ok = doc->Write( "/sim/out.igs", true ); }
            trace( strf( "save %d %zu", ok, seam::readings.size() ) );
            if( !ok ) continue;
            DocM got;
            std::string e;
            REQUIRE( ParseFile( "/sim/out.igs", got, e ), "malformed", e );
            auto read = [&]( const std::string& d ) { for( int64_t t : seam::readings ) if( stamp( t ) == d ) return true; return false; };
            std::string show;
            for( int64_t t : seam::readings ) show += " " + stamp( t );
            if( frozen && seam::readings.empty() ) show = " " + stamp( seam::now );
            REQUIRE( read( got.g.modDate ), "modification-date", "'" + got.g.modDate + "' but the clock showed" + show );
            if( !created.empty() ) REQUIRE( got.g.date == created, "creation-date", "'" + got.g.date + "' instead of '" + created + "'" );
            else REQUIRE( read( got.g.date ), "creation-date", "'" + got.g.date + "' but the clock showed" + show );
            trace( got.g.modDate + " " + got.g.date );
            ++g_stats.probes[created.empty() ? "creation-stamped" : "creation-kept"];
            Nontrivial();
            got.g.date = ref.g.date; got.g.modDate = ref.g.modDate;
            std::string df = Diff( ref, got, CMP_ENTS | CMP_GLOB | CMP_START, ref.g.minRes );
            REQUIRE( df.empty(), "depends-on-clock", df );
            if( op.num( "reload" ) )
            {
                doc.reset( new IGES );
                REQUIRE( doc->Read( "/sim/out.igs" ), "own-date-refused", "the file with dates " + got.g.date + " was refused" );
                std::string was = created;
                DocM again; std::string e2;
                REQUIRE( ParseFile( "/sim/out.igs", again, e2 ), "malformed", e2 );
                created = again.g.date;
                setRef();
            }
        }
    }
    setenv( "TZ", "UTC", 1 ); tzset();
}
void genT01( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    if( r.chance( 1, 2 ) ) { Op d( "doc" ); d.set( "seed", sd( r ) ).set( "style", sd( r ) ).set( "n", 1 + r.below( 2 ) ); s.ops.push_back( d ); }
    else { Op d( "new" ); d.set( "seed", sd( r ) ).set( "date", r.below( 4 ) ); s.ops.push_back( d ); }
    int n = 1 + r.below( th ? 8 : 4 );
    for( int i = 0; i < n; ++i )
    {
        Op c( "clock" );
        c.set( "t", r.chance( 1, 4 ) ? (long) r.range( 0, 253402000000L ) : r.chance( 1, 4 ) ? (long) r.range( 0x7fffffffL - 100, 0x7fffffffL + 100 ) : (long) r.range( 200000000L, 4200000000L ) );
        c.set( "n", r.below( 4 ) ).set( "seed", sd( r ) ).set( "near", r.chance( 1, 4 ) ).set( "zone", r.chance( 1, 2 ) ? (long) r.below( 5 ) : 0L );
        s.ops.push_back( c );
        Op w( "save" );
        w.set( "reload", r.chance( 1, 3 ) );
        BenignWrite( r, w );
        if( r.chance( 1, 8 ) ) w.fault( 'w', 1, "eio" );
        s.ops.push_back( w );
    }
}
RegScenario rT01( Scenario{ "T01", genT01, runT01, "a run is non-trivial when a save under a moving, frozen or stepped clock succeeded and its dates were checked" } );
}
