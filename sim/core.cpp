// Script text form, outcome trace, failure reporting.
#include "sim.h"
#include <cstdarg>
#include <cstring>
#include <locale.h>
#include <sstream>

Stats g_stats;
bool g_verbose = false;
static TraceState s_t;
void ( *step_hook )() = nullptr;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

void trace( const std::string& ev )
{
    s_t.h = mix64( s_t.h, hash64( ev ) );
    ++s_t.n;
    if( s_t.log ) s_t.log->push_back( ev );
    if( g_verbose ) fprintf( stderr, "  [%llu] %s\n", (unsigned long long) s_t.n, ev.c_str() );
}
uint64_t trace_hash() { return s_t.h; }
void trace_reset() { s_t = TraceState(); }
void swap_trace( TraceState& t ) { std::swap( t, s_t ); }

void note( const char* fmt, ... )
{
    if( !g_verbose ) return;
    va_list a; va_start( a, fmt ); vfprintf( stderr, fmt, a ); va_end( a );
    fputc( '\n', stderr );
}

std::string strf( const char* fmt, ... )
{
    static locale_t plain = newlocale( LC_ALL_MASK, "C", (locale_t) 0 );     // whatever the run has set
    locale_t old = uselocale( plain );
    va_list a, b; va_start( a, fmt ); va_copy( b, a );
    int n = vsnprintf( nullptr, 0, fmt, a );
    std::string s( n, 0 );
    vsnprintf( &s[0], n + 1, fmt, b );
    va_end( a ); va_end( b );
    uselocale( old );
    return s;
}

void fail( const std::string& sig, const std::string& detail )
{
    trace( "FAIL " + sig );
    Fail f; f.v.sig = sig; f.v.detail = detail; throw f;
}

static std::string enc( const std::string& s )
{
    std::string o;
    for( unsigned char c : s )
        if( c <= ' ' || c == '%' || c >= 127 ) { char b[4]; snprintf( b, 4, "%%%02x", c ); o += b; }
        else o += c;
    return o;
}
static std::string dec( const std::string& s )
{
    std::string o;
    for( size_t i = 0; i < s.size(); ++i )
        if( s[i] == '%' && i + 2 < s.size() ) { o += (char) strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; }
        else o += s[i];
    return o;
}

std::string Fault::str() const { return strf( "%c %ld %s %ld", cls, at, kind.c_str(), arg ); }
std::string Op::str() const
{
    std::string s = "op " + name;
    for( auto& k : a ) s += " " + k.first + "=" + enc( k.second );
    s += "\n";
    for( auto& f : faults ) s += " fault " + f.str() + "\n";
    return s;
}
std::string Script::str() const
{
    std::string s = "prop " + prop + "\nseed " + std::to_string( seed ) + "\n";
    for( auto& o : ops ) s += o.str();
    return s;
}
bool Script::parse( const std::string& text, Script& out, std::string& err )
{
    out = Script();
    std::istringstream in( text );
    std::string line;
    int n = 0;
    while( std::getline( in, line ) )
    {
        ++n;
        if( line.empty() || line[0] == '#' ) continue;
        std::istringstream w( line );
        std::string k;
        w >> k;
        if( k == "prop" ) w >> out.prop;
        else if( k == "seed" ) w >> out.seed;
        else if( k == "op" )
        {
            Op o; w >> o.name;
            std::string kv;
            while( w >> kv )
            {
                size_t e = kv.find( '=' );
                if( e == std::string::npos ) { err = strf( "line %d", n ); return false; }
                o.a[kv.substr( 0, e )] = dec( kv.substr( e + 1 ) );
            }
            out.ops.push_back( o );
        }
        else if( k == "fault" )
        {
            Fault f;
            if( out.ops.empty() || !( w >> f.cls >> f.at >> f.kind >> f.arg ) ) { err = strf( "line %d", n ); return false; }
            out.ops.back().faults.push_back( f );
        }
        else { err = strf( "line %d: %s", n, k.c_str() ); return false; }
    }
    if( out.prop.empty() ) { err = "no property"; return false; }
    return true;
}
