// The board reader and writer (src/idf): a board is read from IDF 2 or 3 text written by
// an independent writer, edited through the interface and written back; what is in the
// files is read by an independent parser and compared with a model of the board.
//   I04  a board which is read, edited and written is the board which was asked for
//   I05  boards on a failing disk
#include "scen.h"
#include "plane.h"
#include <idf_helpers.h>
#include <idf_common.h>
#include <idf_outlines.h>
#include <idf_parser.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

std::string DamageIdf( const std::string& text, const Op& op );     // scen_idf.cpp

namespace
{
struct IPt { P2 p; double ang = 0; };           // ang: included angle of the arc which ends here
typedef std::vector<IPt> Loop;                  // closed: the last point is the first one; a circle is centre, point, 360
typedef std::vector<std::string> Strs;

const double THOU = 0.0254, TNM = 1e-5;
double unitOf( int u ) { return u == 0 ? 1 : u == 1 ? THOU : TNM; }

enum Kind { BRD, OTH, RTE, PLC, RKO, VKO, PKO, REG };
const char* const SECT[] = { "BOARD_OUTLINE", "OTHER_OUTLINE", "ROUTE_OUTLINE", "PLACE_OUTLINE", "ROUTE_KEEPOUT", "VIA_KEEPOUT", "PLACE_KEEPOUT", "PLACE_REGION" };
const char* const OWN[] = { "UNOWNED", "MCAD", "ECAD" };
const char* const STATE[] = { "UNPLACED", "PLACED", "MCAD", "ECAD" };
const int NOSTATE = 4;

struct Out { int kind = BRD, owner = 0; Strs com; std::string id, side; double th = -1; std::vector<Loop> loops; };
struct Drl { double d = 1; P2 p; bool pth = true; std::string ref, type; int owner = 0; };
struct Note { P2 p; double h = 1, l = 1; std::string text; };
struct Ofs { std::string geom, part; double x = 0, y = 0, z = 0, a = 0; bool none = false; };
struct Comp { std::string ref; bool pos = false; P2 p; double rot = 0; bool bottom = false; int state = NOSTATE; std::vector<Drl> drl; std::vector<Ofs> o; };
struct Part { bool elec = true; std::string geom, part; int unit = 0; double h = 1; Loop o; std::map<std::string, std::string> props; Strs com; bool dflt = false; };
struct Plc { std::string geom, part, ref; P2 p; double z = 0, rot = 0; bool bottom = false; int state = 1; };

struct Brd
{
    std::string name, source;       // source: as in the header
    int unit = 0, ver = 0, lver = 0;
    std::vector<Out> outs;
    std::vector<Drl> drl;
    std::vector<Note> notes;
    std::vector<Plc> plc;           // as in the file
    std::vector<Part> parts;
    Strs drlCom, noteCom, plcCom;
    bool plcSec = false;            // parsed: there is a placement section
    std::map<std::string, Comp> comps;
};

// ---- loops ------------------------------------------------------------------
bool isCircle( const Loop& l ) { return l.size() == 2 && std::fabs( l[1].ang ) > 359.9; }
double area( const Loop& l )
{
    if( isCircle( l ) ) { double r = len( l[1].p - l[0].p ); return PI * r * r; }
    double s = 0;
    for( size_t i = 1; i < l.size(); ++i )
    {
        P2 a = l[i - 1].p, b = l[i].p;
        s += ( a.x * b.y - b.x * a.y ) / 2;
        double t = l[i].ang * PI / 180;
        if( std::fabs( t ) > 1e-4 ) { double r = len( b - a ) / 2 / std::sin( std::fabs( t ) / 2 ); s += ( t > 0 ? 1 : -1 ) * r * r / 2 * ( std::fabs( t ) - std::sin( std::fabs( t ) ) ); }
    }
    return s;
}
void reverse( Loop& l )
{
    Loop o;
    if( isCircle( l ) ) { l[1].ang = -l[1].ang; return; }
    for( size_t i = l.size(); i-- > 0; ) { IPt p = l[i]; p.ang = i + 1 < l.size() ? -l[i + 1].ang : 0; o.push_back( p ); }
    l = o;
}
std::string show( const Loop& l )
{
    std::string s;
    for( auto& p : l ) s += strf( "(%.6f %.6f %.3f)", p.p.x, p.p.y, p.ang );
    return s;
}
// the same closed curve, run through in the same direction
bool sameLoop( const Loop& a, const Loop& b, double tol )
{
    if( isCircle( a ) || isCircle( b ) )
        return isCircle( a ) && isCircle( b ) && len( a[0].p - b[0].p ) <= tol * 1.5 && std::fabs( len( a[1].p - a[0].p ) - len( b[1].p - b[0].p ) ) <= tol * 3;
    if( a.size() != b.size() || a.size() < 3 ) return false;
    size_t n = a.size() - 1;
    for( size_t k = 0; k < n; ++k )
    {
        bool ok = true;
        for( size_t i = 0; i < n && ok; ++i )
        {
            size_t j = ( i + k ) % n;
            ok = std::fabs( a[i].p.x - b[j].p.x ) <= tol && std::fabs( a[i].p.y - b[j].p.y ) <= tol && std::fabs( a[i + 1].ang - b[j + 1].ang ) <= 6e-4;
        }
        if( ok ) return true;
    }
    return false;
}

// ---- generator --------------------------------------------------------------
double q( double v, int dec ) { double p = std::pow( 10.0, dec ); return std::round( v * p ) / p; }

struct Gen
{
    Rng r;
    int dec = 3;
    double u = 1;           // mm per file unit
    int uniq = 0;
    explicit Gen( uint64_t s ) : r( s ) {}
    double Q( double mm ) const { return q( mm / u, dec ) * u; }
    P2 Q( P2 p ) const { return { Q( p.x ), Q( p.y ) }; }
    double pos( double a, double b ) { double v = Q( r.real( a, b ) ); return v > 0 ? v : Q( a ) > 0 ? Q( a ) : std::pow( 10.0, -dec ) * u; }
    double A( double a ) { return q( a, r.chance( 1, 2 ) ? 0 : 3 ); }
    void rotate( Loop& l )
    {
        if( l.size() < 3 ) return;
        size_t n = l.size() - 1, k = r.below( n );
        Loop o;
        for( size_t i = 0; i <= n; ++i ) { IPt p = l[( k + i ) % n]; p.ang = i == 0 ? 0 : l[( k + i - 1 ) % n + 1].ang; o.push_back( p ); }
        l = o;
    }
    Loop ring( const std::vector<IPt>& v )
    {   // v[i].ang: arc from v[i-1] to v[i]; v[0].ang closes the loop
        Loop l;
        for( auto& p : v ) l.push_back( { Q( p.p ), p.ang } );
        IPt e = l[0];
        l[0].ang = 0;
        l.push_back( e );
        return l;
    }
    Loop shape( P2 c, double R )
    {   // rounding to the digits of the file may make the ends of a segment coincide
        for( int i = 0;; ++i )
        {
            Loop l = shape1( c, R );
            bool ok = true;
            for( size_t k = 1; k < l.size(); ++k ) if( len( l[k].p - l[k - 1].p ) < 0.005 ) ok = false;
            if( ok ) return l;
            if( i > 3 ) R = std::max( R * 2, 4 * u * std::pow( 10.0, -dec ) );
        }
    }
    Loop shape1( P2 c, double R )
    {
        double w = r.chance( 1, 3 ) ? 0 : r.real( 0, 2 * PI );
        auto at = [&]( double x, double y ) { return P2{ c.x + x * std::cos( w ) - y * std::sin( w ), c.y + x * std::sin( w ) + y * std::cos( w ) }; };
        Loop l;
        switch( r.below( 12 ) )
        {
            case 0: { double a = R * r.real( 0.5, 0.7 ), b = R * r.real( 0.3, 0.7 ); l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 0 }, { at( -a, b ), 0 } } ); break; }
            case 1: { double s = R * r.real( 0.5, 1.0 ); P2 p = Q( c ), e = Q( P2{ c.x + s * std::cos( w ), c.y + s * std::sin( w ) } ); return { { p, 0 }, { e, 360 } }; }
            case 2: { double a = R * r.real( 0.3, 0.6 ), b = R * r.real( 0.2, 0.35 ); l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 180 }, { at( -a, b ), 0 } } ); l.back().ang = 180; break; }
            case 3:
            {
                int n = 3 + r.below( 9 );
                std::vector<IPt> v;
                for( int i = 0; i < n; ++i ) { double t = 2 * PI * ( i + r.real( -0.2, 0.2 ) ) / n, s = R * r.real( 0.6, 0.95 ); v.push_back( { { c.x + s * std::cos( t ), c.y + s * std::sin( t ) }, 0 } ); }
                l = ring( v );
                break;
            }
            case 4: { double a = R * r.real( 0.4, 0.8 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 0 } } ); l.back().ang = A( r.real( 90, 180 ) ); break; }
            case 5: { double a = R * r.real( 0.4, 0.8 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 0 } } ); l[1].ang = A( r.real( 40, 170 ) ); l.back().ang = A( r.real( 40, 150 ) ); break; }
            case 6: { double a = R * r.real( 0.4, 0.9 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 180 } } ); l.back().ang = 180; break; }
            case 7:
            {
                double a = R * 0.55, b = R * 0.55;
                l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 0 }, { at( -a, b ), 0 } } );
                for( size_t i = 1; i < l.size(); ++i ) if( r.chance( 2, 3 ) ) l[i].ang = A( r.chance( 1, 2 ) ? r.real( 5, 85 ) : -r.real( 5, 60 ) );
                break;
            }
            case 8:
            {   // disk with a slot, which may reach beyond its middle
                double a = 0.9 * R, h = a * r.real( 0.08, 0.25 ), x = std::sqrt( a * a - h * h ), d = r.chance( 2, 3 ) ? -a * r.real( 0.3, 0.8 ) : a * r.real( -0.3, 0.6 );
                l = ring( { { at( x, h ), 0 }, { at( x, -h ), A( 360 - 2 * std::asin( h / a ) * 180 / PI ) }, { at( d, -h ), 0 }, { at( d, h ), 0 } } );
                break;
            }
            case 9:
            {   // part of a ring
                double a = 0.85 * R, b2 = a * r.real( 0.4, 0.75 ), th = A( r.real( 60, 330 ) ), t = th * PI / 180;
                l = ring( { { at( a, 0 ), 0 }, { at( a * std::cos( t ), a * std::sin( t ) ), th }, { at( b2 * std::cos( t ), b2 * std::sin( t ) ), 0 }, { at( b2, 0 ), -th } } );
                break;
            }
            case 10:
            {   // polygon with arcs for sides, also of more than half a circle
                int n = 3 + r.below( 4 );
                std::vector<IPt> v;
                for( int i = 0; i < n; ++i ) v.push_back( { at( 0.4 * R * std::cos( 2 * PI * i / n ), 0.4 * R * std::sin( 2 * PI * i / n ) ), r.chance( 1, 4 ) ? 0 : A( r.real( 60, 180 + 0.6 * 360 / n ) ) } );
                l = ring( v );
                break;
            }
            default:
            {
                double a = R * 0.65, b = R * r.real( 0.35, 0.65 ), k = R * r.real( 0.05, 0.25 );
                std::vector<IPt> v = { { at( -a + k, -b ), 90 }, { at( a - k, -b ), 0 }, { at( a, -b + k ), 90 }, { at( a, b - k ), 0 }, { at( a - k, b ), 90 }, { at( -a + k, b ), 0 }, { at( -a, b - k ), 90 }, { at( -a, -b + k ), 0 } };
                l = ring( v );
            }
        }
        rotate( l );
        return l;
    }
    P2 where() { return { r.real( -120, 120 ), r.real( -120, 120 ) }; }
    Loop any( double R ) { return shape( where(), R ); }
    std::string word( int maxWords )
    {
        static const char* const W[] = { "alpha", "Beta", "x7", "SO-8", "1k5", "a_b", "#1", "R(2)", "mount", "..", "top/left", "5%", "it's", "K" };
        std::string s;
        int n = 1 + r.below( maxWords );
        for( int i = 0; i < n; ++i ) s += ( i ? r.chance( 1, 6 ) ? "  " : " " : "" ) + std::string( W[r.below( sizeof W / sizeof *W )] );
        return s;
    }
    std::string name( const char* stem ) { return std::string( stem ) + std::to_string( ++uniq ) + ( r.chance( 1, 3 ) ? " " + word( 2 ) : "" ); }
    Strs comments()
    {
        Strs c;
        if( r.chance( 1, 3 ) ) for( int n = 1 + r.below( 3 ); n-- > 0; ) c.push_back( word( 5 ) );
        return c;
    }
    Drl drill( const std::string& ref )
    {
        Drl d;
        static const char* const T[] = { "PIN", "VIA", "MTG", "TOOL", "Slot 3", "thermal" };
        d.d = std::max( pos( 0.3, 6 ), Q( 0.31 ) > 0.3 ? Q( 0.31 ) : Q( 0.31 ) + std::pow( 10.0, -dec ) * u );
        d.p = Q( where() ); d.pth = r.chance( 1, 2 ); d.ref = ref; d.type = T[r.below( 6 )]; d.owner = r.below( 3 );
        return d;
    }
};

// ver 0: a part of a file of its own
Part makePart( Gen& g, int ver )
{
    Rng& r = g.r;
    Part p;
    p.geom = g.name( "geo" ); p.part = r.chance( 1, 3 ) ? g.word( 1 ) : g.name( "part" );
    p.elec = r.chance( 2, 3 );
    p.unit = ver == 2 ? r.below( 3 ) : r.below( 2 );
    Gen h( r.next() );
    h.u = unitOf( p.unit ); h.dec = p.unit == 0 ? 1 + r.below( 5 ) : p.unit == 1 ? r.below( 2 ) : 0;
    p.h = h.pos( 0.1, 20 );
    p.o = h.shape( { 0, 0 }, r.real( 1, 12 ) );
    if( r.chance( 1, 4 ) && !isCircle( p.o ) ) reverse( p.o );
    p.com = g.comments();
    if( ver == 3 && p.elec ) for( int k = r.chance( 1, 2 ) ? 0 : r.below( 4 ); k-- > 0; ) p.props[g.name( "prop" )] = r.chance( 1, 2 ) ? std::to_string( r.below( 1000 ) ) : g.word( 3 );
    return p;
}

void generate( uint64_t seed, int big, int unit, int ver, int cad, Brd& b )
{
    Gen g( seed );
    Rng& r = g.r;
    b = Brd();
    b.unit = unit;
    g.u = unitOf( unit );
    g.dec = unit == 0 ? 1 + r.below( 5 ) : unit == 1 ? r.below( 2 ) : 0;
    b.name = g.name( "board" );
    b.source = g.word( 3 );
    b.ver = r.below( 90 ); b.lver = r.below( 90 );
    int N = big > 1 ? 40 : big ? 12 : 5;
    auto fit = [&]( Out& o )
    {
        o.owner = ver == 3 ? r.below( 3 ) : 0;
        if( o.kind != BRD || ver == 3 || true ) o.com = g.comments();
        static const char* const S2[] = { "TOP", "BOTTOM" };
        static const char* const S3[] = { "TOP", "BOTTOM", "BOTH" };
        static const char* const S5[] = { "TOP", "BOTTOM", "BOTH", "INNER", "ALL" };
        switch( o.kind )
        {
            case OTH: o.id = g.name( "oln" ); o.th = g.pos( 0.1, 5 ); o.side = ver == 3 ? S2[r.below( 2 )] : "TOP"; break;
            case RTE: o.side = ver == 3 ? S5[r.below( 5 )] : "ALL"; break;
            case RKO: o.side = ver == 3 ? S5[r.below( 5 )] : S3[r.below( 3 )]; break;
            case PLC: o.side = ver == 3 ? S3[r.below( 3 )] : "TOP"; o.th = ver == 3 ? r.chance( 1, 3 ) ? -1 : g.pos( 0.1, 30 ) : 0; break;
            case PKO: o.side = S3[r.below( 3 )]; o.th = g.pos( 0.1, 30 ); break;
            case REG:
                o.side = S3[r.below( 3 )];
                // a group may have several regions
                for( auto& q : b.outs ) if( q.kind == REG && r.chance( 1, 2 ) ) o.id = q.id;
                if( o.id.empty() ) o.id = g.name( "grp" );
                break;
            case BRD: o.th = g.pos( 0.3, 4 ); break;
        }
        int n = o.kind == BRD || o.kind == OTH ? 1 + ( r.chance( 1, 2 ) ? 0 : r.below( N ) ) : 1;
        for( int i = 0; i < n; ++i )
        {
            Loop l = g.any( i ? r.real( 1, 10 ) : r.real( 20, 90 ) );
            if( ( n > 1 && i > 0 ) || ( o.kind != BRD && o.kind != OTH && r.chance( 1, 2 ) ) ) if( !isCircle( l ) ) reverse( l );
            o.loops.push_back( l );
        }
    };
    { Out o; fit( o ); b.outs.push_back( o ); }
    int n = r.below( N );
    for( int i = 0; i < n; ++i ) { Out o; o.kind = 1 + r.below( 7 ); fit( o ); b.outs.push_back( o ); }
    // library
    n = r.below( N );
    for( int i = 0; i < n; ++i ) b.parts.push_back( makePart( g, ver ) );
    // placements
    n = r.chance( 1, 5 ) ? 0 : r.below( N + 3 );
    std::vector<Plc> first;
    for( int i = 0; i < n; ++i )
    {
        Plc p;
        if( !b.parts.empty() && r.chance( 5, 6 ) ) { auto& t = b.parts[r.below( b.parts.size() )]; p.geom = t.geom; p.part = t.part; }
        else { p.geom = g.name( "lost" ); p.part = g.word( 1 ); }
        p.p = g.Q( g.where() );
        p.rot = g.A( r.pick( std::vector<double>{ 0, 90, 180, 270, r.real( 0, 360 ), r.real( -180, 180 ) } ) );
        p.z = ver == 3 && r.chance( 1, 3 ) ? g.Q( r.real( -3, 3 ) ) : 0;
        p.bottom = r.chance( 1, 2 );
        p.state = ver == 3 ? r.below( 4 ) : r.below( 3 );
        if( ver == 2 && p.state == 2 ) p.state = cad == IDF3::CAD_ELEC ? 2 : 3;     // FIXED: somebody else's
        if( !first.empty() && r.chance( 1, 4 ) )
        {   // one more body of a component which exists
            auto& f = r.pick( first );
            p.ref = f.ref; p.bottom = f.bottom; p.state = f.state;
        }
        else if( r.chance( 1, 6 ) ) p.ref = "NOREFDES";
        else { p.ref = g.name( "U" ); first.push_back( p ); }
        b.plc.push_back( p );
    }
    // drills
    n = r.below( 2 * N );
    for( int i = 0; i < n; ++i )
    {
        std::string ref = "BOARD";
        switch( r.below( 6 ) )
        {
            case 0: case 1: if( !first.empty() ) ref = r.pick( first ).ref; break;
            case 2: ref = "NOREFDES"; break;
            case 3: if( r.chance( 1, 3 ) ) ref = "PANEL"; else if( r.chance( 1, 3 ) ) ref = g.name( "H" ); break;
        }
        Drl d = g.drill( ref );
        if( ver == 2 ) { d.pth = true; d.owner = 0; }
        b.drl.push_back( d );
        if( r.chance( 1, 8 ) ) b.drl.push_back( d );
    }
    if( ver == 3 && r.chance( 1, 2 ) ) for( n = 1 + r.below( 4 ); n-- > 0; ) { Note t; t.p = g.Q( g.where() ); t.h = g.pos( 0.5, 5 ); t.l = g.pos( 5, 50 ); t.text = g.word( 6 ); b.notes.push_back( t ); }
    b.drlCom = g.comments();
    if( !b.notes.empty() ) b.noteCom = g.comments();
    if( !b.plc.empty() ) b.plcCom = g.comments();
}

// ---- independent writer -----------------------------------------------------
struct Writer
{
    Rng r;
    bool lower, crlf, blank, strange, chop;
    std::string t;
    int style;
    explicit Writer( uint64_t s ) : r( s ) { lower = r.chance( 1, 5 ); crlf = r.chance( 1, 4 ); blank = r.chance( 1, 5 ); strange = r.chance( 1, 5 ); chop = r.chance( 1, 5 ); style = r.below( 3 ); }
    std::string key( std::string k ) { if( lower ) for( auto& c : k ) c = r.chance( 1, 2 ) ? tolower( c ) : c; return k; }
    void line( std::string s )
    {
        if( blank && r.chance( 1, 5 ) ) t += r.chance( 1, 2 ) ? "\n" : "  \t\n";
        if( style && r.chance( 1, 6 ) ) s = " " + s;
        if( style && r.chance( 1, 6 ) ) s += "  ";
        t += s + ( crlf ? "\r\n" : "\n" );
    }
    // the last line need not end
    const std::string& done() { while( chop && !t.empty() && isspace( (unsigned char) t.back() ) ) t.pop_back(); return t; }
    std::string sp() { return style == 0 ? " " : style == 1 ? std::string( 1 + r.below( 3 ), ' ' ) : r.chance( 1, 3 ) ? "\t" : " "; }
    std::string num( double mm, double u )
    {
        double v = mm / u;
        for( int d = 0; d < 9; ++d ) if( std::fabs( q( v, d ) - v ) <= 1e-9 * std::max( 1.0, std::fabs( v ) ) )
        {
            std::string s = strf( "%.*f", d, q( v, d ) );
            if( r.chance( 1, 8 ) ) s = strf( "%.*f", d + 1 + (int) r.below( 3 ), q( v, d ) );
            if( r.chance( 1, 12 ) && s[0] != '-' ) s = "+" + s;
            if( r.chance( 1, 12 ) ) s = strf( "%.12e", q( v, d ) );
            return s;
        }
        return strf( "%.15g", v );
    }
    std::string str( const std::string& s )
    {
        bool plain = !s.empty();
        for( char c : s ) plain = plain && !isspace( (unsigned char) c );
        if( !s.empty() && ( s[0] == '#' || s[0] == '.' ) ) plain = false;
        return plain && r.chance( 1, 2 ) ? s : "\"" + s + "\"";
    }
    void coms( const Strs& c ) { for( auto& s : c ) { t += std::string( "#" ) + ( r.chance( 4, 5 ) ? " " : "" ) + s + ( crlf ? "\r\n" : "\n" ); } }
    void loop( const Loop& l, int idx, double u )
    {
        for( auto& p : l ) line( std::to_string( idx ) + sp() + num( p.p.x, u ) + sp() + num( p.p.y, u ) + sp() + num( p.ang, 1 ) );
    }
    void outline( const Out& o, int ver, double u )
    {
        coms( o.com );
        std::string h = key( std::string( "." ) + SECT[o.kind] );
        if( ver == 3 ) h += sp() + key( OWN[o.owner] );
        line( h );
        if( o.kind == BRD ) line( num( o.th, u ) );
        if( o.kind == OTH ) line( str( o.id ) + sp() + num( o.th, u ) + ( ver == 3 ? sp() + key( o.side ) : "" ) );
        if( o.kind == RTE && ver == 3 ) line( key( o.side ) );
        if( o.kind == RKO ) line( key( o.side ) );
        if( o.kind == PLC && ver == 3 ) line( key( o.side ) + ( o.th >= 0 ? sp() + num( o.th, u ) : "" ) );
        if( o.kind == PKO ) line( key( o.side ) + sp() + num( o.th, u ) );
        if( o.kind == REG ) line( key( o.side ) + sp() + str( o.id ) );
        bool single = o.kind != BRD && o.kind != OTH;
        for( size_t i = 0; i < o.loops.size(); ++i ) loop( o.loops[i], single ? area( o.loops[i] ) > 0 ? 0 : 1 : i, u );
        line( key( std::string( ".END_" ) + SECT[o.kind] ) );
        if( r.chance( 1, 2 ) ) t += crlf ? "\r\n" : "\n";
    }
    std::string board( const Brd& b, int ver )
    {
        double u = unitOf( b.unit );
        t.clear();
        line( key( ".HEADER" ) );
        line( key( "BOARD_FILE" ) + sp() + ( ver == 3 ? r.pick( Strs{ "3.0", "3.", "3" } ) : r.pick( Strs{ "2.0", "2" } ) ) + sp() + str( b.source ) + sp() + "2014/02/01.15:09:15" + sp() + std::to_string( b.ver ) );
        line( str( b.name ) + sp() + key( b.unit == 0 ? "MM" : b.unit == 1 ? "THOU" : "TNM" ) );
        line( key( ".END_HEADER" ) );
        outline( b.outs[0], ver, u );
        // the other sections come in any order, placements last
        std::vector<int> order;
        for( size_t i = 1; i < b.outs.size(); ++i ) order.push_back( i );
        if( !b.drl.empty() || !b.drlCom.empty() ) order.push_back( -1 );
        if( !b.notes.empty() ) order.push_back( -2 );
        if( strange ) order.push_back( -3 );
        for( size_t i = order.size(); i > 1; --i ) std::swap( order[i - 1], order[r.below( i )] );
        // same kinds keep their order
        std::map<int, std::vector<int>> byKind;
        for( int i : order ) if( i > 0 ) byKind[b.outs[i].kind].push_back( i );
        for( auto& k : byKind ) std::sort( k.second.begin(), k.second.end() );
        std::map<int, size_t> at;
        for( int& i : order ) if( i > 0 ) { int k = b.outs[i].kind; i = byKind[k][at[k]++]; }
        for( int i : order )
        {
            if( i > 0 ) outline( b.outs[i], ver, u );
            else if( i == -1 )
            {
                coms( b.drlCom );
                line( key( ".DRILLED_HOLES" ) );
                for( auto& d : b.drl )
                {
                    static const std::set<std::string> K = { "PIN", "VIA", "MTG", "TOOL", "BOARD", "NOREFDES", "PANEL" };
                    std::string ty = K.count( d.type ) ? key( d.type ) : str( d.type ), rf = K.count( d.ref ) ? key( d.ref ) : str( d.ref );
                    std::string s = num( d.d, u ) + sp() + num( d.p.x, u ) + sp() + num( d.p.y, u );
                    if( ver == 3 ) s += sp() + key( d.pth ? "PTH" : "NPTH" ) + sp() + rf + sp() + ty + sp() + key( OWN[d.owner] );
                    else s += sp() + ty + sp() + rf;
                    line( s );
                }
                line( key( ".END_DRILLED_HOLES" ) );
            }
            else if( i == -2 )
            {
                coms( b.noteCom );
                line( key( ".NOTES" ) );
                for( auto& n : b.notes ) line( num( n.p.x, u ) + sp() + num( n.p.y, u ) + sp() + num( n.h, u ) + sp() + num( n.l, u ) + sp() + "\"" + n.text + "\"" );
                line( key( ".END_NOTES" ) );
            }
            else { line( ".VENDOR_DATA" ); line( "some 1 2 3" ); line( ".END_VENDOR_DATA" ); }
        }
        if( !b.plc.empty() )
        {
            coms( b.plcCom );
            line( key( ".PLACEMENT" ) );
            for( auto& p : b.plc )
            {
                line( str( p.geom ) + sp() + str( p.part ) + sp() + ( p.ref == "NOREFDES" ? key( p.ref ) : str( p.ref ) ) );
                std::string st = ver == 3 || p.state < 2 ? STATE[p.state] : "FIXED";
                line( num( p.p.x, u ) + sp() + num( p.p.y, u ) + ( ver == 3 ? sp() + num( p.z, u ) : "" ) + sp() + num( p.rot, 1 ) + sp() + key( p.bottom ? "BOTTOM" : "TOP" ) + sp() + key( st ) );
            }
            line( key( ".END_PLACEMENT" ) );
        }
        return done();
    }
    void onePart( const Part& p )
    {
        double u = unitOf( p.unit );
        coms( p.com );
        line( key( p.elec ? ".ELECTRICAL" : ".MECHANICAL" ) );
        line( str( p.geom ) + sp() + str( p.part ) + sp() + key( p.unit == 0 ? "MM" : p.unit == 1 ? "THOU" : "TNM" ) + sp() + num( p.h, u ) );
        loop( p.o, area( p.o ) > 0 ? 0 : 1, u );
        for( auto& x : p.props ) line( key( "PROP" ) + sp() + str( x.first ) + sp() + str( x.second ) );
        line( key( p.elec ? ".END_ELECTRICAL" : ".END_MECHANICAL" ) );
        if( r.chance( 1, 2 ) ) t += crlf ? "\r\n" : "\n";
    }
    std::string part( const Part& p ) { t.clear(); onePart( p ); return done(); }
    std::string library( const Brd& b, int ver )
    {
        t.clear();
        line( key( ".HEADER" ) );
        line( key( "LIBRARY_FILE" ) + sp() + ( ver == 3 ? "3.0" : "2.0" ) + sp() + str( b.source ) + sp() + "2014/02/01.15:09:15" + sp() + std::to_string( b.lver ) );
        line( key( ".END_HEADER" ) );
        for( auto& p : b.parts ) onePart( p );
        return done();
    }
};

// ---- strict parser of what the library writes -----------------------------------
struct Parser
{
    struct Bad { std::string why; };
    std::vector<Strs> lines;        // tokens; a comment is { "#", text }
    std::vector<std::vector<char>> quoted;
    std::vector<std::string> raw;
    size_t at = 0;
    [[noreturn]] void bad( const std::string& w ) { throw Bad{ w + ( at < raw.size() ? " at line " + std::to_string( at + 1 ) + " '" + raw[at] + "'" : " at the end" ) }; }
    void split( const std::string& text )
    {
        lines.clear(); quoted.clear(); raw.clear(); at = 0;
        if( text.empty() || text.back() != '\n' ) bad( "the last line is not complete" );
        size_t p = 0;
        while( p < text.size() )
        {
            size_t e = text.find( '\n', p );
            std::string l = text.substr( p, e - p );
            p = e + 1;
            raw.push_back( l );
            Strs tk; std::vector<char> qq;
            if( !l.empty() && l[0] == '#' ) { tk = { "#", l.size() > 2 ? l.substr( 2 ) : "" }; qq = { 0, 0 }; }
            else
                for( size_t i = 0; i < l.size(); )
                {
                    if( l[i] == ' ' ) { ++i; continue; }
                    if( l[i] == '"' )
                    {
                        size_t c = l.find( '"', i + 1 );
                        if( c == std::string::npos ) { at = raw.size() - 1; bad( "open quote" ); }
                        tk.push_back( l.substr( i + 1, c - i - 1 ) ); qq.push_back( 1 );
                        i = c + 1;
                        if( i < l.size() && l[i] != ' ' ) { at = raw.size() - 1; bad( "text after a quote" ); }
                    }
                    else { size_t c = l.find( ' ', i ); if( c == std::string::npos ) c = l.size(); tk.push_back( l.substr( i, c - i ) ); qq.push_back( 0 ); i = c; }
                }
            lines.push_back( tk ); quoted.push_back( qq );
        }
    }
    bool done() { while( at < lines.size() && lines[at].empty() ) ++at; return at >= lines.size(); }
    const Strs& need( size_t n ) { if( at >= lines.size() ) bad( "unexpected end" ); if( lines[at].size() != n ) bad( strf( "%zu items expected", n ) ); return lines[at]; }
    double num( const std::string& s ) { char* e; double v = strtod( s.c_str(), &e ); if( *e || s.empty() || !std::isfinite( v ) ) bad( "'" + s + "' is no number" ); return v; }
    int pick( const std::string& s, const char* const* v, int n ) { for( int i = 0; i < n; ++i ) if( s == v[i] ) return i; bad( "'" + s + "' is unknown" ); }
    void header( const char* type, Brd& b, bool lib )
    {
        if( need( 1 )[0] != ".HEADER" ) bad( ".HEADER expected" );
        ++at;
        auto& h = need( 5 );
        if( h[0] != type || h[1] != "3.0" || !quoted[at][2] ) bad( "bad header" );
        std::string& d = lines[at][3];
        bool ok = d.size() == 19;
        const char* f = "dddd/dd/dd.dd:dd:dd";
        for( int i = 0; i < 19 && ok; ++i ) ok = f[i] == 'd' ? isdigit( (unsigned char) d[i] ) : d[i] == f[i];
        if( !ok ) bad( "bad date" );
        date = d;
        b.source = h[2];
        ( lib ? b.lver : b.ver ) = num( h[4] );
        ++at;
        if( !lib )
        {
            auto& n = need( 2 );
            if( !quoted[at][0] ) bad( "the name is not quoted" );
            b.name = n[0];
            b.unit = n[1] == "MM" ? 0 : n[1] == "THOU" ? 1 : -1;
            if( b.unit < 0 ) bad( "bad unit" );
            ++at;
        }
        if( need( 1 )[0] != ".END_HEADER" ) bad( ".END_HEADER expected" );
        ++at;
    }
    std::string date;
    std::vector<Loop> loops( const std::string& end, bool props, std::map<std::string, std::string>* pr, double u, bool single )
    {
        std::vector<Loop> v;
        int last = -1;
        for( ;; ++at )
        {
            if( at >= lines.size() ) bad( "unexpected end" );
            auto& t = lines[at];
            if( t.size() == 1 && t[0] == end ) { ++at; break; }
            if( props && t.size() == 3 && t[0] == "PROP" ) { if( !quoted[at][1] || !quoted[at][2] || pr->count( t[1] ) ) bad( "bad property" ); ( *pr )[t[1]] = t[2]; continue; }
            if( pr && !pr->empty() ) bad( "a point after the properties" );
            need( 4 );
            double di = num( t[0] );
            int i = (int) di;
            if( di != i || i < 0 ) bad( "bad index" );
            IPt p; p.p = { num( t[1] ) * u, num( t[2] ) * u }; p.ang = num( t[3] );
            if( i != last )
            {
                if( single ? last != -1 || i > 1 : i != last + 1 ) bad( "the index does not count loops" );
                if( p.ang != 0 ) bad( "a loop starts with an arc" );
                v.push_back( Loop() );
                last = i;
                idx.push_back( i );
            }
            v.back().push_back( p );
        }
        for( auto& l : v )
        {
            if( l.size() < 2 ) bad( "a loop of one point" );
            if( !isCircle( l ) && ( l[0].p.x != l.back().p.x || l[0].p.y != l.back().p.y ) ) bad( "a loop is not closed" );
        }
        return v;
    }
    std::vector<int> idx;
    void checkWinding( const std::vector<Loop>& v, bool single )
    {
        for( size_t i = 0; i < v.size(); ++i )
        {
            if( isCircle( v[i] ) ) { if( v[i][1].ang != 360 ) bad( "the angle of a circle is not 360" ); continue; }
            int k = single ? idx[0] : i;
            if( ( area( v[i] ) > 0 ) != ( k == 0 ) ) bad( strf( "loop %d has the wrong winding %s;", k, show( v[i] ).c_str() ) );
        }
    }
    void board( const std::string& text, Brd& b )
    {
        split( text );
        header( "BOARD_FILE", b, false );
        double u = unitOf( b.unit );
        Strs com;
        bool seenDrl = false, seenNote = false, seenPlc = false;
        while( !done() )
        {
            auto& t = lines[at];
            if( t[0] == "#" ) { com.push_back( t[1] ); ++at; continue; }
            std::string s = t[0];
            int kind = -1;
            for( int k = 0; k < 8; ++k ) if( s == std::string( "." ) + SECT[k] ) kind = k;
            if( ( kind == BRD ) != b.outs.empty() ) bad( "the board outline is not the first and only one" );
            if( seenPlc ) bad( "a section after the placements" );
            if( kind >= 0 )
            {
                Out o;
                o.kind = kind;
                o.com = com; com.clear();
                o.owner = pick( need( 2 )[1], OWN, 3 );
                ++at;
                static const char* const S5[] = { "TOP", "BOTTOM", "BOTH", "INNER", "ALL" };
                switch( kind )
                {
                    case BRD: o.th = num( need( 1 )[0] ) * u; ++at; break;
                    case OTH: { auto& l = need( 3 ); if( !quoted[at][0] ) bad( "the name is not quoted" ); o.id = l[0]; o.th = num( l[1] ) * u; pick( l[2], S5, 2 ); o.side = l[2]; ++at; break; }
                    case RTE: case RKO: o.side = need( 1 )[0]; pick( o.side, S5, 5 ); ++at; break;
                    case PLC: { if( at < lines.size() && lines[at].size() == 1 ) { o.side = lines[at][0]; o.th = -1; } else { auto& l = need( 2 ); o.side = l[0]; o.th = num( l[1] ) * u; } pick( o.side, S5, 3 ); ++at; break; }
                    case PKO: { auto& l = need( 2 ); o.side = l[0]; pick( o.side, S5, 3 ); o.th = num( l[1] ) * u; ++at; break; }
                    case REG: { auto& l = need( 2 ); o.side = l[0]; pick( o.side, S5, 3 ); if( !quoted[at][1] ) bad( "the name is not quoted" ); o.id = l[1]; ++at; break; }
                }
                bool single = kind != BRD && kind != OTH;
                idx.clear();
                o.loops = loops( std::string( ".END_" ) + SECT[kind], false, nullptr, u, single );
                checkWinding( o.loops, single );
                b.outs.push_back( o );
            }
            else if( s == ".DRILLED_HOLES" )
            {
                need( 1 );
                if( seenDrl ) bad( "a second section" );
                seenDrl = true;
                b.drlCom = com; com.clear();
                for( ++at; ; ++at )
                {
                    if( at >= lines.size() ) bad( "unexpected end" );
                    if( lines[at].size() == 1 && lines[at][0] == ".END_DRILLED_HOLES" ) { ++at; break; }
                    auto& l = need( 7 );
                    Drl d;
                    static const char* const PL[] = { "PTH", "NPTH" };
                    static const std::set<std::string> K = { "PIN", "VIA", "MTG", "TOOL" };
                    static const std::set<std::string> KR = { "BOARD", "NOREFDES", "PANEL" };
                    d.d = num( l[0] ) * u; d.p = { num( l[1] ) * u, num( l[2] ) * u }; d.pth = pick( l[3], PL, 2 ) == 0; d.ref = l[4]; d.type = l[5]; d.owner = pick( l[6], OWN, 3 );
                    if( ( quoted[at][4] != 0 ) == ( KR.count( d.ref ) != 0 ) || ( quoted[at][5] != 0 ) == ( K.count( d.type ) != 0 ) ) bad( "wrong quotes" );
                    b.drl.push_back( d );
                }
            }
            else if( s == ".NOTES" )
            {
                need( 1 );
                if( seenNote ) bad( "a second section" );
                seenNote = true;
                b.noteCom = com; com.clear();
                for( ++at; ; ++at )
                {
                    if( at >= lines.size() ) bad( "unexpected end" );
                    if( lines[at].size() == 1 && lines[at][0] == ".END_NOTES" ) { ++at; break; }
                    auto& l = need( 5 );
                    Note n; n.p = { num( l[0] ) * u, num( l[1] ) * u }; n.h = num( l[2] ) * u; n.l = num( l[3] ) * u; n.text = l[4];
                    if( !quoted[at][4] ) bad( "the text is not quoted" );
                    b.notes.push_back( n );
                }
            }
            else if( s == ".PLACEMENT" )
            {
                need( 1 );
                seenPlc = b.plcSec = true;
                b.plcCom = com; com.clear();
                for( ++at; ; ++at )
                {
                    if( at >= lines.size() ) bad( "unexpected end" );
                    if( lines[at].size() == 1 && lines[at][0] == ".END_PLACEMENT" ) { ++at; break; }
                    auto& l = need( 3 );
                    Plc p; p.geom = l[0]; p.part = l[1]; p.ref = l[2];
                    ++at;
                    auto& m = need( 6 );
                    static const char* const TB[] = { "TOP", "BOTTOM" };
                    p.p = { num( m[0] ) * u, num( m[1] ) * u }; p.z = num( m[2] ) * u; p.rot = num( m[3] ); p.bottom = pick( m[4], TB, 2 ) == 1; p.state = pick( m[5], STATE, 4 );
                    b.plc.push_back( p );
                }
            }
            else bad( "unknown section" );
        }
        // comments without a section: those of a placement section which is not written
        if( !com.empty() ) b.plcCom = com;
        if( b.outs.empty() ) bad( "no board outline" );
        if( !seenDrl ) bad( "no drilled holes" );
    }
    void library( const std::string& text, Brd& b )
    {
        split( text );
        header( "LIBRARY_FILE", b, true );
        Strs com;
        while( !done() )
        {
            auto& t = lines[at];
            if( t[0] == "#" ) { com.push_back( t[1] ); ++at; continue; }
            Part p;
            if( t[0] == ".ELECTRICAL" ) p.elec = true; else if( t[0] == ".MECHANICAL" ) p.elec = false; else bad( "unknown section" );
            need( 1 );
            ++at;
            auto& l = need( 4 );
            if( !quoted[at][0] || !quoted[at][1] ) bad( "the names are not quoted" );
            p.geom = l[0]; p.part = l[1];
            p.unit = l[2] == "MM" ? 0 : l[2] == "THOU" ? 1 : -1;
            if( p.unit < 0 ) bad( "bad unit" );
            p.h = num( l[3] ) * unitOf( p.unit );
            p.com = com; com.clear();
            ++at;
            idx.clear();
            auto v = loops( p.elec ? ".END_ELECTRICAL" : ".END_MECHANICAL", p.elec, &p.props, unitOf( p.unit ), true );
            if( v.size() != 1 ) bad( "a part without an outline" );
            checkWinding( v, true );
            p.o = v[0];
            b.parts.push_back( p );
        }
        if( !com.empty() ) bad( "comments without a part" );
    }
};

// ---- comparison -----------------------------------------------------------------
struct Tol { double xy, dia, ang; };
Tol tolOf( int unit ) { return unit == 0 ? Tol{ 6e-6, 6e-4, 6e-4 } : Tol{ 0.0014, 0.0014, 6e-4 }; }
bool nearAng( double a, double b, double t ) { return std::fabs( std::remainder( a - b, 360.0 ) ) <= t; }

template<class T> void matchAll( const std::vector<T>& want, const std::vector<T>& got, const std::function<bool( const T&, const T& )>& eq, const std::function<std::string( const T& )>& sh, const char* what )
{
    std::vector<char> used( got.size(), 0 );
    for( auto& w : want )
    {
        bool hit = false;
        for( size_t i = 0; i < got.size() && !hit; ++i ) if( !used[i] && eq( w, got[i] ) ) { used[i] = 1; hit = true; }
        if( !hit )
        {
            std::string s = "expected " + sh( w ) + "; not matched:";
            for( size_t i = 0, n = 0; i < got.size() && n < 4; ++i ) if( !used[i] ) { s += "\n  " + sh( got[i] ); ++n; }
            fail( std::string( "wrong-" ) + what, s );
        }
    }
    for( size_t i = 0; i < got.size(); ++i ) if( !used[i] ) fail( std::string( "unexpected-" ) + what, sh( got[i] ) );
}
std::string join( const Strs& s ) { std::string o; for( auto& x : s ) o += "[" + x + "]"; return o; }

std::vector<Plc> placed( const Brd& m )
{
    std::vector<Plc> v;
    for( auto& kv : m.comps )
        for( auto& o : kv.second.o )
        {
            if( o.none ) continue;
            const Comp& c = kv.second;
            Plc p;
            p.geom = o.geom; p.part = o.part; p.ref = c.ref.compare( 0, 8, "NOREFDES" ) == 0 ? "NOREFDES" : c.ref;
            p.p = { c.bottom ? c.p.x - o.x : c.p.x + o.x, c.p.y + o.y };
            p.rot = c.bottom ? c.rot - o.a : c.rot + o.a;
            p.z = o.z; p.bottom = c.bottom; p.state = c.state == NOSTATE ? 1 : c.state;
            v.push_back( p );
        }
    return v;
}
bool referenced( const Brd& m, const Part& p )
{
    for( auto& kv : m.comps ) for( auto& o : kv.second.o ) if( !o.none && o.geom == p.geom && o.part == p.part ) return true;
    return false;
}
std::vector<Drl> allDrills( const Brd& m )
{
    std::vector<Drl> v = m.drl;
    for( auto& kv : m.comps ) v.insert( v.end(), kv.second.drl.begin(), kv.second.drl.end() );
    return v;
}
std::string str( const Out& o )
{
    std::string s = strf( "%s %s '%s' %s %.6f %s", SECT[o.kind], OWN[o.owner], o.id.c_str(), o.side.c_str(), o.th, join( o.com ).c_str() );
    for( auto& l : o.loops ) s += "\n    " + show( l );
    return s;
}
std::string str( const Drl& d ) { return strf( "hole %.6f (%.6f %.6f) %s '%s' '%s' %s", d.d, d.p.x, d.p.y, d.pth ? "PTH" : "NPTH", d.ref.c_str(), d.type.c_str(), OWN[d.owner] ); }
std::string str( const Plc& p ) { return strf( "'%s' '%s' '%s' (%.6f %.6f %.6f) %.4f %s %s", p.geom.c_str(), p.part.c_str(), p.ref.c_str(), p.p.x, p.p.y, p.z, p.rot, p.bottom ? "BOTTOM" : "TOP", STATE[p.state] ); }
std::string str( const Note& n ) { return strf( "note (%.6f %.6f) %.6f %.6f '%s'", n.p.x, n.p.y, n.h, n.l, n.text.c_str() ); }
std::string str( const Part& p )
{
    std::string s = strf( "%s '%s' '%s' unit %d height %.6f %s %s", p.elec ? "ELECTRICAL" : "MECHANICAL", p.geom.c_str(), p.part.c_str(), p.unit, p.h, join( p.com ).c_str(), show( p.o ).c_str() );
    for( auto& x : p.props ) s += " " + x.first + "=" + x.second;
    return s;
}

// what is in the files (parsed) against the model; the units of the model are already those asked for
void compareFiles( const Brd& w, const Brd& g )
{
    Tol t = tolOf( w.unit );
    auto nr = [&]( double a, double b ) { return std::fabs( a - b ) <= t.xy; };
    if( g.unit != w.unit ) fail( "wrong-unit", strf( "the board is in %s", g.unit ? "THOU" : "MM" ) );
    std::string nm = w.name.empty() ? "BOARD WITH NO NAME" : w.name;
    if( g.name != nm ) fail( "wrong-name", "'" + g.name + "', expected '" + nm + "'" );
    if( g.ver != w.ver || g.lver != w.lver ) fail( "wrong-version", strf( "board %d, library %d; expected %d, %d", g.ver, g.lver, w.ver, w.lver ) );
    std::vector<Out> want;
    for( auto& o : w.outs ) if( o.kind == BRD || !o.loops.empty() ) want.push_back( o );
    matchAll<Out>( want, g.outs, [&]( const Out& a, const Out& b )
    {
        if( a.kind != b.kind || a.owner != b.owner || a.id != b.id || a.side != b.side || a.com != b.com || a.loops.size() != b.loops.size() ) return false;
        if( a.kind != RTE && a.kind != RKO && a.kind != VKO && a.kind != REG && !nr( a.th, b.th ) ) return false;
        bool single = a.kind != BRD && a.kind != OTH;
        for( size_t i = 0; i < a.loops.size(); ++i )
        {
            Loop l = a.loops[i];
            if( isCircle( l ) ) { if( l[1].ang < 0 ) l[1].ang = 360; }
            else if( !single && ( area( l ) > 0 ) != ( i == 0 ) ) reverse( l );
            if( !sameLoop( l, b.loops[i], t.xy * 2 ) ) return false;    // (the library keeps arc angles to 1e-4 degrees)
        }
        return true;
    }, []( const Out& o ) { return str( o ); }, "outline" );
    matchAll<Drl>( allDrills( w ), g.drl, [&]( const Drl& a, const Drl& b ) { return std::fabs( a.d - b.d ) <= t.dia && nr( a.p.x, b.p.x ) && nr( a.p.y, b.p.y ) && a.pth == b.pth && a.ref == b.ref && a.type == b.type && a.owner == b.owner; },
                   []( const Drl& o ) { return str( o ); }, "hole" );
    matchAll<Note>( w.notes, g.notes, [&]( const Note& a, const Note& b ) { return nr( a.p.x, b.p.x ) && nr( a.p.y, b.p.y ) && nr( a.h, b.h ) && nr( a.l, b.l ) && a.text == b.text; }, []( const Note& o ) { return str( o ); }, "note" );
    matchAll<Plc>( placed( w ), g.plc, [&]( const Plc& a, const Plc& b )
    { return a.geom == b.geom && a.part == b.part && a.ref == b.ref && nr( a.p.x, b.p.x ) && nr( a.p.y, b.p.y ) && std::fabs( a.z - b.z ) <= t.dia && nearAng( a.rot, b.rot, t.ang ) && a.bottom == b.bottom && a.state == b.state; },
                   []( const Plc& o ) { return str( o ); }, "placement" );
    std::vector<Part> parts;
    for( auto& p : w.parts ) if( referenced( w, p ) ) { parts.push_back( p ); parts.back().unit = p.unit == 1 ? 1 : 0; }
    matchAll<Part>( parts, g.parts, [&]( const Part& a, const Part& b )
    {
        if( a.elec != b.elec || a.geom != b.geom || a.part != b.part || a.unit != b.unit || a.com != b.com || a.props != b.props ) return false;
        Tol k = tolOf( a.unit );
        if( std::fabs( a.h - b.h ) > k.xy ) return false;
        if( a.dflt ) return true;
        Loop l = a.o;
        if( isCircle( l ) ) l[1].ang = 360;
        return sameLoop( l, b.o, k.xy );
    }, []( const Part& o ) { return str( o ); }, "part" );
    if( g.drlCom != w.drlCom ) fail( "wrong-comment", "holes: " + join( g.drlCom ) + ", expected " + join( w.drlCom ) );
    if( !w.notes.empty() && g.noteCom != w.noteCom ) fail( "wrong-comment", "notes: " + join( g.noteCom ) + ", expected " + join( w.noteCom ) );
    if( !placed( w ).empty() && g.plcCom != w.plcCom ) fail( "wrong-comment", "placements: " + join( g.plcCom ) + ", expected " + join( w.plcCom ) );
}

// the components which placements and component holes make up
void compose( Brd& m, bool substitute )
{
    m.comps.clear();
    std::vector<Drl> all;
    all.swap( m.drl );
    auto comp = [&]( const std::string& ref ) -> Comp& { Comp& c = m.comps[ref]; c.ref = ref; return c; };
    for( auto& d : all ) if( d.ref == "BOARD" || d.ref == "PANEL" ) m.drl.push_back( d ); else comp( d.ref ).drl.push_back( d );
    int n = 0;
    for( auto& p : m.plc )
    {
        std::string ref = p.ref == "NOREFDES" ? "NOREFDESn" + std::to_string( n++ ) : p.ref;
        Comp& c = comp( ref );
        Ofs o;
        o.geom = p.geom; o.part = p.part; o.z = p.z;
        if( !c.pos ) { c.pos = true; c.p = p.p; c.rot = p.rot; c.bottom = p.bottom; c.state = p.state; }
        else
        {
            o.x = p.bottom ? c.p.x - p.p.x : p.p.x - c.p.x; o.y = p.p.y - c.p.y;
            o.a = p.bottom ? c.rot - p.rot : p.rot - c.rot;
        }
        bool known = false;
        for( auto& t : m.parts ) known = known || ( t.geom == p.geom && t.part == p.part );
        if( !known && !substitute ) o.none = true;
        else if( !known ) { Part t; t.geom = p.geom; t.part = p.part; t.h = 5; t.dflt = true; m.parts.push_back( t ); }
        c.o.push_back( o );
    }
    m.plc.clear();
}

struct Sim
{
    Brd m;
    std::string source;             // of the next header
    std::unique_ptr<IDF3_BOARD> b;
    int cad = 0;
    bool live = false;
    int n = 0;

    bool mine( int owner ) const { return owner == 0 || ( owner == 1 ) == ( cad == IDF3::CAD_MECH ); }
    bool mineP( int st ) const { return st < 2 || ( st == 2 && cad == IDF3::CAD_MECH ) || ( st == 3 && cad == IDF3::CAD_ELEC ); }

    // the object through its getters
    void look()
    {
        if( !live ) return;
        auto nr = []( double a, double b ) { return std::fabs( a - b ) <= 1e-6 * ( 1 + std::fabs( b ) ); };
        REQUIRE( b->GetBoardName() == m.name, "getter-name", "'" + b->GetBoardName() + "', expected '" + m.name + "'" );
        REQUIRE( nr( b->GetBoardThickness(), m.outs[0].th ), "getter-thickness", strf( "%.9g, expected %.9g", b->GetBoardThickness(), m.outs[0].th ) );
        REQUIRE( b->GetBoardVersion() == m.ver && b->GetLibraryVersion() == m.lver, "getter-version", strf( "%d %d, expected %d %d", b->GetBoardVersion(), b->GetLibraryVersion(), m.ver, m.lver ) );
        REQUIRE( (int) b->GetUnit() == m.unit, "getter-unit", strf( "%d, expected %d", (int) b->GetUnit(), m.unit ) );
        REQUIRE( b->GetIDFSource() == source, "getter-source", "'" + b->GetIDFSource() + "', expected '" + source + "'" );
        auto sameDrl = [&]( IDF_DRILL_DATA* d, const Drl& w )
        {
            return nr( d->GetDrillDia(), w.d ) && nr( d->GetDrillXPos(), w.p.x ) && nr( d->GetDrillYPos(), w.p.y ) && ( d->GetDrillPlating() == IDF3::PTH ) == w.pth
                && d->GetDrillRefDes() == w.ref && d->GetDrillHoleType() == w.type && (int) d->GetDrillOwner() == w.owner;
        };
        auto drills = [&]( const std::list<IDF_DRILL_DATA*>& l, const std::vector<Drl>& w, const std::string& who )
        {
            REQUIRE( l.size() == w.size(), "getter-holes", strf( "%s has %zu holes, expected %zu", who.c_str(), l.size(), w.size() ) );
            size_t i = 0;
            for( auto d : l ) { REQUIRE( sameDrl( d, w[i] ), "getter-holes", strf( "hole %zu of %s, expected %s", i, who.c_str(), str( w[i] ).c_str() ) ); ++i; }
        };
        drills( b->GetBoardDrills(), m.drl, "the board" );
        auto* cs = b->GetComponents();
        REQUIRE( cs->size() == m.comps.size() && b->GetComponentsSize() == m.comps.size(), "getter-components", strf( "%zu components, expected %zu", cs->size(), m.comps.size() ) );
        for( auto& kv : m.comps )
        {
            const Comp& w = kv.second;
            IDF3_COMPONENT* c = b->FindComponent( w.ref );
            REQUIRE( c && c->GetRefDes() == w.ref, "getter-components", "'" + w.ref + "' was not found" );
            drills( *c->GetDrills(), w.drl, "'" + w.ref + "'" );
            double x, y, a;
            IDF3::IDF_LAYER ly;
            bool has = c->GetPosition( x, y, a, ly );
            REQUIRE( has == w.pos, "getter-position", "'" + w.ref + "' has " + ( has ? "a" : "no" ) + " position" );
            if( has ) REQUIRE( nr( x, w.p.x ) && nr( y, w.p.y ) && nr( a, w.rot ) && ly == ( w.bottom ? IDF3::LYR_BOTTOM : IDF3::LYR_TOP ), "getter-position", strf( "'%s' is at (%.9g %.9g) %.9g side %d", w.ref.c_str(), x, y, a, (int) ly ) );
            REQUIRE( (int) c->GetPlacement() == w.state, "getter-placement", strf( "'%s' is in state %d, expected %d", w.ref.c_str(), (int) c->GetPlacement(), w.state ) );
            REQUIRE( c->GetOutlinesSize() == w.o.size() && c->GetOutlinesData()->size() == w.o.size(), "getter-outlines", strf( "'%s' has %zu bodies, expected %zu", w.ref.c_str(), c->GetOutlinesSize(), w.o.size() ) );
            size_t i = 0;
            for( auto d : *c->GetOutlinesData() )
            {
                const Ofs& o = w.o[i++];
                double xo, yo, zo, ao;
                d->GetOffsets( xo, yo, zo, ao );
                REQUIRE( nr( xo, o.x ) && nr( yo, o.y ) && nr( zo, o.z ) && nearAng( ao, o.a, 1e-6 ), "getter-offsets", strf( "body %zu of '%s': (%.9g %.9g %.9g) %.9g, expected (%.9g %.9g %.9g) %.9g", i - 1, w.ref.c_str(), xo, yo, zo, ao, o.x, o.y, o.z, o.a ) );
                IDF3_COMP_OUTLINE* p = d->GetOutline();
                REQUIRE( ( p == nullptr ) == o.none && ( !p || ( p->GetGeomName() == o.geom && p->GetPartName() == o.part ) ), "getter-outlines", strf( "body %zu of '%s' is not '%s' '%s'", i - 1, w.ref.c_str(), o.geom.c_str(), o.part.c_str() ) );
            }
        }
        auto& lib = b->GetComponentOutlines();
        REQUIRE( lib.size() == m.parts.size(), "getter-parts", strf( "%zu parts, expected %zu", lib.size(), m.parts.size() ) );
        for( auto& w : m.parts )
        {
            IDF3_COMP_OUTLINE* p = b->GetComponentOutlineByID( w.geom + "_" + w.part );
            REQUIRE( p && p->GetGeomName() == w.geom && p->GetPartName() == w.part && ( p->GetComponentClass() == IDF3::COMP_ELEC ) == w.elec && nr( p->GetThickness(), w.h ) && p->OutlinesSize() == 1, "getter-parts", "part '" + w.geom + "' '" + w.part + "'" );
        }
        auto* ot = b->GetOtherOutlines();
        size_t no = 0;
        for( auto& o : m.outs ) no += o.kind == OTH;
        REQUIRE( ot->size() == no, "getter-other", strf( "%zu other outlines, expected %zu", ot->size(), no ) );
        REQUIRE( b->GetBoardOutlinesSize() == m.outs[0].loops.size(), "getter-outline", strf( "%zu loops, expected %zu", b->GetBoardOutlinesSize(), m.outs[0].loops.size() ) );
        REQUIRE( (int) b->GetBoardOutline()->GetOwner() == m.outs[0].owner && b->GetBoardOutline()->CommentsSize() == m.outs[0].com.size(), "getter-outline", "owner or comments" );
        size_t i = 0;
        for( auto l : *b->GetBoardOutlines() )
        {
            const Loop& w = m.outs[0].loops[i++];
            size_t k = 0;
            REQUIRE( l->size() == w.size() - 1, "getter-outline", strf( "loop %zu has %zu segments", i - 1, l->size() ) );
            for( auto sg : *l )
            {
                const IPt &p = w[k], &q = w[k + 1];
                ++k;
                REQUIRE( std::fabs( sg->endPoint.x - q.p.x ) < 1e-4 && std::fabs( sg->endPoint.y - q.p.y ) < 1e-4 && std::fabs( sg->startPoint.x - p.p.x ) < 1e-4 && std::fabs( sg->startPoint.y - p.p.y ) < 1e-4 && std::fabs( std::fabs( sg->angle ) - std::fabs( q.ang ) ) < 1e-3,
                         "getter-outline", strf( "segment %zu of loop %zu: (%.9g %.9g)-(%.9g %.9g) %.6g", k - 1, i - 1, sg->startPoint.x, sg->startPoint.y, sg->endPoint.x, sg->endPoint.y, sg->angle ) );
            }
        }
    }

    static IDF_OUTLINE* make( const Loop& l )
    {
        IDF_OUTLINE* o = new IDF_OUTLINE;
        for( size_t i = 1; i < l.size(); ++i )
        {
            IDF_POINT a, c;
            a.x = l[i - 1].p.x; a.y = l[i - 1].p.y; c.x = l[i].p.x; c.y = l[i].p.y;
            o->push( std::fabs( l[i].ang ) < 1e-3 ? new IDF_SEGMENT( a, c ) : new IDF_SEGMENT( a, c, l[i].ang, false ) );
        }
        return o;
    }
    void expectFiles( const std::string& stem, Brd* out = nullptr )
    {
        Brd g;
        Parser ps;
        try { ps.library( seam::get( stem + ".emp" ), g ); ps.board( seam::get( stem + ".emn" ), g ); }
        catch( Parser::Bad& e ) { fail( "malformed", e.why ); }
        compareFiles( m, g );
        REQUIRE( g.source == "Created by " + ( source.empty() ? std::string( "KiCad-IDF Framework" ) : source ), "wrong-source", "'" + g.source + "'" );
        time_t t = seam::now;
        struct tm tmv;
        localtime_r( &t, &tmv );
        std::string d = strf( "%04d/%02d/%02d.%02d:%02d:%02d", tmv.tm_year + 1900, tmv.tm_mon + 1, tmv.tm_mday, tmv.tm_hour, tmv.tm_min, tmv.tm_sec );
        REQUIRE( ps.date == d, "wrong-date", ps.date + ", expected " + d );
        if( out ) *out = g;
    }
    // the model after a successful save
    void saved( bool mm, bool force )
    {
        ++m.ver; ++m.lver;
        m.unit = mm ? 0 : 1;
        if( force ) for( auto& p : m.parts ) p.unit = m.unit;
        if( source.empty() ) source = "KiCad-IDF Framework";
    }
    void adopt( const Brd& g )
    {
        m = g;
        if( !m.plcSec ) m.plcCom.clear();
        source.clear();
    }

    void edit( const Op& op );
};

#define WANT( cond, got, sig ) do { bool w_ = ( cond ), g_ = ( got ); REQUIRE( w_ == g_, sig, strf( "%s was %s", op.str().c_str(), g_ ? "accepted" : "refused" ) ); if( !g_ ) ++g_stats.probes["refused-edit"]; } while( 0 )

void Sim::edit( const Op& op )
{
    Gen g( op.u64( "seed" ) );
    Rng& r = g.r;
    g.dec = 4;
    g.uniq = 1000 * ++n;
    Out& brd = m.outs[0];
    switch( op.num( "k" ) )
    {
        case 0: { std::string s = r.chance( 1, 6 ) ? "" : g.name( "nb" ); b->SetBoardName( s ); m.name = s; break; }
        case 1:
        {
            double t = r.chance( 1, 6 ) ? -r.real( 0, 2 ) : r.chance( 1, 10 ) ? 0 : g.pos( 0.2, 5 );
            bool ok = t > 0 && mine( brd.owner );
            WANT( ok, b->SetBoardThickness( t ), "thickness" );
            if( ok ) brd.th = t;
            break;
        }
        case 2:
        {
            Drl d = g.drill( "BOARD" );
            if( r.chance( 1, 6 ) ) d.d = r.real( 0.01, 0.29 );
            REQUIRE( b->AddBoardDrill( d.d, d.p.x, d.p.y, d.pth ? IDF3::PTH : IDF3::NPTH, d.type == "MTG" && r.chance( 1, 2 ) ? "" : d.type, (IDF3::KEY_OWNER) d.owner ), "add-hole", "refused" );
            if( d.d < 0.3 ) d.d = 0.3;
            m.drl.push_back( d );
            break;
        }
        case 3:
        {
            Drl d = g.drill( "BOARD" );
            if( !m.drl.empty() && r.chance( 7, 8 ) ) d = r.pick( m.drl );
            bool any = false;
            std::vector<Drl> keep;
            for( auto& x : m.drl )
                if( std::fabs( x.d - d.d ) < 1e-6 && len( x.p - d.p ) < 1e-6 && mine( x.owner ) ) any = true; else keep.push_back( x );
            WANT( any, b->DelBoardDrill( d.d, d.p.x, d.p.y ), "delete-hole" );
            m.drl = keep;
            break;
        }
        case 4:
        {
            double w = g.pos( 0.4, 5 ), l = g.pos( 0.5, 20 ), a = g.A( r.real( -180, 180 ) );
            if( r.chance( 1, 8 ) ) w = 0.0001; else if( r.chance( 1, 8 ) ) l = 0.0001;
            P2 c = g.Q( g.where() );
            bool ok = w >= 0.001 && l >= 0.001;
            WANT( ok, b->AddSlot( w, l, a, c.x, c.y ), "slot" );
            if( !ok ) break;
            double ca = std::cos( a * PI / 180 ), sa = std::sin( a * PI / 180 );
            auto at = [&]( double x, double y ) { return P2{ c.x + x * ca - y * sa, c.y + x * sa + y * ca }; };
            Loop s = { { at( l / 2, w / 2 ), 0 }, { at( -l / 2, w / 2 ), 0 }, { at( -l / 2, -w / 2 ), 180 }, { at( l / 2, -w / 2 ), 0 }, { at( l / 2, w / 2 ), 180 } };
            // as the slot is stored: clockwise
            reverse( s );
            // its first segment: the straight run at the left of the direction reversed
            IDF_OUTLINE* o = b->GetBoardOutlines()->back();
            Loop st;
            { IPt p; p.p = { o->front()->startPoint.x, o->front()->startPoint.y }; st.push_back( p ); }
            for( auto sg : *o ) { IPt p; p.p = { sg->endPoint.x, sg->endPoint.y }; p.ang = sg->angle; st.push_back( p ); }
            Loop cw = st; if( area( cw ) > 0 ) reverse( cw );
            REQUIRE( len( st[0].p - st.back().p ) < 1e-4, "slot", "not closed " + show( st ) );
            REQUIRE( sameLoop( s, cw, 1e-6 * ( 1 + std::fabs( c.x ) + std::fabs( c.y ) + 2 * w ) ), "slot", show( st ) + "\nexpected " + show( s ) );
            st.back().p = st[0].p;
            brd.loops.push_back( st );
            break;
        }
        case 5:
        {
            Loop l = g.any( r.real( 1, 20 ) );
            if( r.chance( 1, 2 ) && !isCircle( l ) ) reverse( l );
            IDF_OUTLINE* o = make( l );
            bool ok = mine( brd.owner ), got = b->AddBoardOutline( o );
            if( !got ) delete o;
            WANT( ok, got, "add-outline" );
            if( ok ) brd.loops.push_back( l );
            break;
        }
        case 6:
        {
            size_t i = r.below( brd.loops.size() + 2 );
            bool my = mine( brd.owner ), ok = my && i < brd.loops.size() && ( i > 0 || brd.loops.size() == 1 );
            switch( r.below( 6 ) )
            {
                case 0:
                {   // by address: the outline is handed back
                    IDF_OUTLINE* o = i < brd.loops.size() ? *std::next( b->GetBoardOutlines()->begin(), i ) : nullptr;
                    std::unique_ptr<IDF_OUTLINE> other;
                    if( !o && r.chance( 1, 2 ) ) { other.reset( make( g.any( 3 ) ) ); o = other.get(); }
                    bool got = r.chance( 1, 2 ) ? b->DelBoardOutline( o ) : b->GetBoardOutline()->DelOutline( o );
                    WANT( ok, got, "delete-outline" );
                    if( !got ) break;
                    std::unique_ptr<IDF_OUTLINE> mineNow( o );
                    const Loop& w = brd.loops[i];
                    REQUIRE( o->size() == w.size() - 1, "delete-outline", "the outline which was handed back has lost segments" );
                    ++g_stats.probes["outline-handed-back"];
                    break;
                }
                case 1: WANT( ok, b->GetBoardOutline()->DelOutline( i ), "delete-outline" ); break;
                default: WANT( ok, b->DelBoardOutline( i ), "delete-outline" );
            }
            if( ok ) brd.loops.erase( brd.loops.begin() + i );
            break;
        }
        case 7:
            if( r.chance( 2, 3 ) ) { std::string c = r.chance( 1, 6 ) ? "" : g.word( 4 ); b->GetBoardOutline()->AddComment( c ); if( !c.empty() ) brd.com.push_back( c ); }
            else if( r.chance( 2, 3 ) ) { size_t i = r.below( brd.com.size() + 1 ); WANT( i < brd.com.size(), b->GetBoardOutline()->DeleteComment( i ), "comment" ); if( i < brd.com.size() ) brd.com.erase( brd.com.begin() + i ); }
            else { b->GetBoardOutline()->ClearComments(); brd.com.clear(); }
            break;
        case 8: { int o = r.below( 3 ); bool ok = mine( brd.owner ); WANT( ok, b->GetBoardOutline()->SetOwner( (IDF3::KEY_OWNER) o ), "owner" ); if( ok ) brd.owner = o; break; }
        case 9: case 10:
        {   // a new component
            Comp c;
            c.ref = !m.comps.empty() && r.chance( 1, 8 ) ? std::next( m.comps.begin(), r.below( m.comps.size() ) )->first : g.name( "N" );
            c.pos = true; c.p = g.Q( g.where() ); c.rot = g.A( r.real( -180, 360 ) ); c.bottom = r.chance( 1, 2 );
            c.state = r.chance( 1, 8 ) ? NOSTATE : (int) r.below( 4 );
            IDF3_COMPONENT* p = new IDF3_COMPONENT( b.get() );
            REQUIRE( p->SetRefDes( c.ref ) && p->SetPosition( c.p.x, c.p.y, c.rot, c.bottom ? IDF3::LYR_BOTTOM : IDF3::LYR_TOP ), "component", "setting up a component was refused" );
            if( c.state != NOSTATE ) REQUIRE( p->SetPlacement( (IDF3::IDF_PLACEMENT) c.state ), "component", "setting up a component was refused" );
            std::vector<Part> fresh;
            for( int k = r.below( 4 ); k-- > 0; )
            {
                Ofs o;
                IDF3_COMP_OUTLINE* t;
                if( !m.parts.empty() && r.chance( 3, 4 ) ) { auto& q = r.pick( m.parts ); o.geom = q.geom; o.part = q.part; t = b->GetComponentOutlineByID( o.geom + "_" + o.part ); }
                else { o.geom = g.name( "dg" ); o.part = g.word( 1 ); t = b->GetInvalidOutline( o.geom, o.part ); Part q; q.geom = o.geom; q.part = o.part; q.h = 5; q.dflt = true; m.parts.push_back( q ); }
                REQUIRE( t, "component", "no outline '" + o.geom + "'" );
                IDF3_COMP_OUTLINE_DATA* d;
                if( r.chance( 1, 2 ) ) { o.x = g.Q( r.real( -9, 9 ) ); o.y = g.Q( r.real( -9, 9 ) ); o.z = q( r.real( -3, 3 ), 3 ); o.a = g.A( r.real( -180, 180 ) ); d = new IDF3_COMP_OUTLINE_DATA( p, t, o.x, o.y, o.z, o.a ); }
                else d = new IDF3_COMP_OUTLINE_DATA( p, t );
                REQUIRE( p->AddOutlineData( d ), "component", "an outline was refused" );
                c.o.push_back( o );
            }
            for( int k = r.below( 3 ); k-- > 0; )
            {
                Drl d = g.drill( c.ref );
                REQUIRE( p->AddDrill( d.d, d.p.x, d.p.y, d.pth ? IDF3::PTH : IDF3::NPTH, d.type, (IDF3::KEY_OWNER) d.owner ), "component", "a hole was refused" );
                c.drl.push_back( d );
            }
            if( c.ref.compare( 0, 8, "NOREFDES" ) == 0 ) for( auto& d : c.drl ) d.ref = c.ref;
            bool ok = !m.comps.count( c.ref ), got = b->AddComponent( p );
            if( !got ) delete p;
            WANT( ok, got, "add-component" );
            if( ok ) m.comps[c.ref] = c;
            break;
        }
        case 11:
        {
            if( m.comps.empty() ) break;
            size_t i = r.below( m.comps.size() + ( r.chance( 1, 6 ) ? 2 : 0 ) );
            bool ok = i < m.comps.size() && mineP( std::next( m.comps.begin(), i )->second.state );
            if( i < m.comps.size() && r.chance( 1, 2 ) ) WANT( ok, b->DelComponent( b->FindComponent( std::next( m.comps.begin(), i )->first ) ), "delete-component" );
            else WANT( ok, b->DelComponent( i ), "delete-component" );
            if( ok ) m.comps.erase( std::next( m.comps.begin(), i ) );
            break;
        }
        case 12: case 13: case 14: case 15:
        {   // an existing component
            if( m.comps.empty() ) break;
            Comp& c = std::next( m.comps.begin(), r.below( m.comps.size() ) )->second;
            IDF3_COMPONENT* p = b->FindComponent( c.ref );
            REQUIRE( p, "component", "'" + c.ref + "' was not found" );
            bool my = c.state == NOSTATE || mineP( c.state );
            switch( r.below( 8 ) )
            {
                case 0: { int s = r.below( 5 ); bool ok = s < 4 && my; WANT( ok, p->SetPlacement( (IDF3::IDF_PLACEMENT) s ), "placement" ); if( ok ) c.state = s; break; }
                case 1:
                {
                    bool ok = my && !c.pos;
                    P2 x = g.Q( g.where() );
                    bool bt = r.chance( 1, 2 );
                    double rot = g.A( r.real( -180, 360 ) );
                    WANT( ok, p->SetPosition( x.x, x.y, rot, bt ? IDF3::LYR_BOTTOM : IDF3::LYR_TOP ), "position" );
                    if( ok ) { c.pos = true; c.p = x; c.rot = rot; c.bottom = bt; }
                    break;
                }
                case 2: case 3:
                {
                    if( c.ref.compare( 0, 8, "NOREFDES" ) == 0 ) break;
                    Drl d = g.drill( c.ref );
                    if( r.chance( 1, 2 ) ) REQUIRE( p->AddDrill( d.d, d.p.x, d.p.y, d.pth ? IDF3::PTH : IDF3::NPTH, d.type, (IDF3::KEY_OWNER) d.owner ), "component", "a hole was refused" );
                    else
                    {
                        IDF_DRILL_DATA* x = new IDF_DRILL_DATA( d.d, d.p.x, d.p.y, d.pth ? IDF3::PTH : IDF3::NPTH, r.chance( 1, 5 ) ? c.ref + "?" : c.ref, d.type, (IDF3::KEY_OWNER) d.owner );
                        bool ok = x->GetDrillRefDes() == c.ref, got = p->AddDrill( x ) == x;
                        if( !got ) delete x;
                        WANT( ok, got, "hole" );
                        if( !ok ) break;
                    }
                    c.drl.push_back( d );
                    break;
                }
                case 4:
                {
                    if( c.drl.empty() ) break;
                    size_t i = r.below( c.drl.size() );
                    Drl d = c.drl[i];
                    if( r.chance( 1, 2 ) )
                    {
                        WANT( my, p->DelDrill( d.d, d.p.x, d.p.y ), "delete-hole" );
                        if( my ) c.drl.erase( std::remove_if( c.drl.begin(), c.drl.end(), [&]( const Drl& x ) { return std::fabs( x.d - d.d ) < 1e-6 && len( x.p - d.p ) < 1e-6; } ), c.drl.end() );
                    }
                    else
                    {
                        WANT( my, p->DelDrill( *std::next( p->GetDrills()->begin(), i ) ), "delete-hole" );
                        if( my ) c.drl.erase( c.drl.begin() + i );
                    }
                    break;
                }
                default:
                {
                    if( c.o.empty() ) break;
                    size_t i = r.below( c.o.size() );
                    IDF3_COMP_OUTLINE_DATA* d = *std::next( p->GetOutlinesData()->begin(), i );
                    bool ok = mineP( c.state );
                    switch( r.below( 3 ) )
                    {
                        case 0:
                        {
                            double x = g.Q( r.real( -9, 9 ) ), y = g.Q( r.real( -9, 9 ) ), z = q( r.real( -3, 3 ), 3 ), a = g.A( r.real( -180, 180 ) );
                            WANT( ok, d->SetOffsets( x, y, z, a ), "offsets" );
                            if( ok ) { c.o[i].x = x; c.o[i].y = y; c.o[i].z = z; c.o[i].a = a; }
                            break;
                        }
                        case 1:
                        {
                            if( m.parts.empty() ) break;
                            auto& t = r.pick( m.parts );
                            WANT( ok, d->SetOutline( b->GetComponentOutlineByID( t.geom + "_" + t.part ) ), "outline" );
                            if( ok ) { c.o[i].geom = t.geom; c.o[i].part = t.part; c.o[i].none = false; }
                            break;
                        }
                        default:
                            if( r.chance( 1, 2 ) ) WANT( my, p->DeleteOutlineData( d ), "delete-body" ); else WANT( my, p->DeleteOutlineData( i ), "delete-body" );
                            if( my ) c.o.erase( c.o.begin() + i );
                    }
                }
            }
            break;
        }
        case 16: case 17:
        {   // other outlines
            std::vector<Out*> v;
            for( auto& o : m.outs ) if( o.kind == OTH ) v.push_back( &o );
            if( v.empty() ) break;
            Out& o = *r.pick( v );
            OTHER_OUTLINE* p = nullptr;
            for( auto& kv : *b->GetOtherOutlines() ) if( kv.second->GetOutlineIdentifier() == o.id ) p = kv.second;
            REQUIRE( p, "getter-other", "'" + o.id + "' was not found" );
            bool my = mine( o.owner );
            switch( r.below( 7 ) )
            {
                case 0: { double t = r.chance( 1, 5 ) ? -1 : g.pos( 0.1, 9 ); bool ok = my && t >= 0; WANT( ok, p->SetThickness( t ), "other" ); if( ok ) o.th = t; break; }
                case 1: { int s = r.below( 2 ); bool ok = my; WANT( ok, p->SetSide( (IDF3::IDF_LAYER) s ), "other" ); if( ok ) o.side = s ? "BOTTOM" : "TOP"; break; }
                case 2: { std::string s = g.name( "ren" ); WANT( my, p->SetOutlineIdentifier( s ), "other" ); if( my ) o.id = s; break; }
                case 3: { std::string s = g.word( 3 ); p->AddComment( s ); o.com.push_back( s ); break; }
                case 4: { int w = r.below( 3 ); WANT( my, p->SetOwner( (IDF3::KEY_OWNER) w ), "other" ); if( my ) o.owner = w; break; }
                case 5:
                {
                    Loop l = g.any( 5 );
                    IDF_OUTLINE* x = make( l );
                    bool got = p->AddOutline( x );
                    if( !got ) delete x;
                    WANT( my, got, "other" );
                    if( my ) o.loops.push_back( l );
                    break;
                }
                default:
                {
                    size_t i = r.below( o.loops.size() + 1 );
                    bool ok = my && i < o.loops.size() && ( i > 0 || o.loops.size() == 1 );
                    WANT( ok, p->DelOutline( i ), "other" );
                    if( ok ) o.loops.erase( o.loops.begin() + i );
                }
            }
            break;
        }
        case 18: source = g.word( 3 ); b->SetIDFSource( source ); break;
        case 19:
        {
            int v = r.range( -2, 50 );
            WANT( v >= 0, b->SetBoardVersion( v ), "version" ); if( v >= 0 ) m.ver = v;
            v = r.range( -2, 50 );
            WANT( v >= 0, b->SetLibraryVersion( v ), "version" ); if( v >= 0 ) m.lver = v;
            break;
        }
        case 21: case 22:
        {   // a part from a file of its own
            std::string fn = strf( "/sim/part%d.idf", n );
            auto put = [&]( const std::string& f, const Part& q ) { Writer wr( r.next() ); seam::put( f, wr.part( q ) ); };
            auto load = [&]( const std::string& f ) { auto* p = b->GetComponentOutline( f ); REQUIRE( seam::open_handles() == 0, "handle-leak", "a part file stays open" ); return p; };
            Part q;
            bool old = false;
            int way = r.below( 8 );
            std::vector<size_t> real;
            for( size_t i = 0; i < m.parts.size(); ++i ) if( !m.parts[i].dflt && m.parts[i].o.size() > 1 ) real.push_back( i );
            if( way < 3 && !real.empty() ) { q = m.parts[r.pick( real )]; old = true; if( m.unit == 2 || q.unit == 2 ) q.unit = 0; }
            else q = makePart( g, 0 );
            if( old && way == 0 )
            {   // another body under a name which is taken
                if( r.chance( 1, 2 ) ) q.elec = !q.elec;
                else { Gen h( r.next() ); h.dec = 3; Loop l; for( int k = 0; k < 20 && ( l.empty() || l.size() == q.o.size() ); ++k ) l = h.shape( { 0, 0 }, r.real( 1, 12 ) ); if( l.size() == q.o.size() ) break; q.o = l; }
                if( !q.elec ) q.props.clear();
                q.unit = 0;
                put( fn, q );
                REQUIRE( load( fn ) == nullptr, "part-file", "a second body named '" + q.geom + "' '" + q.part + "' was accepted" );
                ++g_stats.probes["refused-edit"];
                break;
            }
            if( way == 3 ) { REQUIRE( load( fn ) == nullptr, "part-file", "there is no such file" ); ++g_stats.probes["refused-edit"]; }
            put( fn, q );
            if( way == 4 || way == 5 )
            {   // a disk error, or a file cut short
                if( way == 5 )
                {
                    std::string whole = seam::get( fn );
                    size_t end = whole.find_last_of( '.' );
                    seam::put( fn, whole.substr( 0, r.below( end ) ) );
                    REQUIRE( load( fn ) == nullptr, "part-file", "a file cut short was accepted: " + seam::get( fn ) );
                    seam::put( fn, whole );
                }
                else
                {
                    Op f( "part" );
                    if( r.chance( 1, 3 ) ) f.fault( 'o', 1, r.pick( std::vector<std::string>{ "eio", "eacces", "emfile" } ) ); else f.fault( 'r', 1 + r.below( 2 ), "eio" ).set( "chunk", 64 + (long) r.below( 100 ) );
                    IDF3_COMP_OUTLINE* p;
                    bool hit;
                    { Armed a( f ); p = load( fn ); hit = seam::io_error_fired(); }
                    if( hit ) REQUIRE( p == nullptr, "part-file", "accepted although the file could not be read" );
                    else { REQUIRE( p, "part-file", "a valid part was refused: " + b->GetError() ); m.parts.push_back( q ); REQUIRE( load( fn ) == p, "part-file", "not the same part again" ); break; }
                }
                ++g_stats.probes["refused-edit"];
                look();
            }
            IDF3_COMP_OUTLINE* p = load( fn );
            REQUIRE( p, "part-file", "a valid part was refused: " + b->GetError() + "\n" + seam::get( fn ) );
            REQUIRE( p == b->GetComponentOutlineByID( q.geom + "_" + q.part ), "part-file", "not the part which is in the library" );
            if( !old ) m.parts.push_back( q ); else ++g_stats.probes["same-part-again"];
            REQUIRE( load( fn ) == p, "part-file", "not the same part again" );
            ++g_stats.probes["part-file"];
            break;
        }
        default:
        {   // a part of the library
            if( m.parts.empty() ) break;
            Part& t = m.parts[r.below( m.parts.size() )];
            IDF3_COMP_OUTLINE* p = b->GetComponentOutlineByID( t.geom + "_" + t.part );
            REQUIRE( p, "getter-parts", "part '" + t.geom + "' was not found" );
            switch( r.below( 4 ) )
            {
                case 0: { double h = r.chance( 1, 5 ) ? -1 : g.pos( 0.1, 30 ); WANT( h >= 0, p->SetThickness( h ), "part" ); if( h >= 0 ) t.h = h; break; }
                case 1: { std::string s = g.word( 3 ); p->AddComment( s ); t.com.push_back( s ); break; }
                case 2: if( t.props.empty() ) { bool e = r.chance( 1, 2 ); WANT( true, p->SetComponentClass( e ? IDF3::COMP_ELEC : IDF3::COMP_MECH ), "part" ); t.elec = e; } break;
                default: { int u = r.below( 2 ); WANT( true, p->SetUnit( u ? IDF3::UNIT_THOU : IDF3::UNIT_MM ), "part" ); t.unit = u; }
            }
        }
    }
}

void genI04( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    Op o( "open" );
    o.set( "seed", std::to_string( r.next() ) ).set( "style", std::to_string( r.next() ) ).set( "ver", r.chance( 1, 3 ) ? 2 : 3 ).set( "unit", (long) r.below( 3 ) )
     .set( "cad", (long) r.below( 2 ) ).set( "big", thorough && r.chance( 1, 2 ) ? 1 : r.chance( 1, 4 ) ).set( "now", 86400 * (long) r.below( 30000 ) + (long) r.below( 86400 ) );
    if( o.num( "unit" ) == 2 ) o.set( "ver", 2 );
    if( r.chance( 1, 8 ) ) o.set( "nosubst", 1 );
    if( r.chance( 1, 3 ) ) BenignRead( r, o );
    s.ops.push_back( o );
    int n = r.below( r.chance( 1, 3 ) ? 4 : thorough ? 60 : 25 );
    for( int i = 0; i < n; ++i )
    {
        if( r.chance( 1, 10 ) ) { Op w( r.chance( 1, 2 ) ? "save" : "reload" ); w.set( "mm", (long) r.below( 2 ) ).set( "force", r.chance( 1, 3 ) ); if( r.chance( 1, 3 ) ) BenignWrite( r, w ); s.ops.push_back( w ); continue; }
        if( r.chance( 1, 40 ) ) { Op w = o; w.set( "seed", std::to_string( r.next() ) ); w.set( "again", 1 ); s.ops.push_back( w ); continue; }
        s.ops.push_back( Op( "edit" ).set( "k", (long) r.below( 24 ) ).set( "seed", std::to_string( r.next() ) ) );
    }
    s.ops.push_back( Op( "save" ).set( "mm", (long) r.below( 2 ) ).set( "force", r.chance( 1, 3 ) ) );
    if( r.chance( 1, 2 ) ) s.ops.push_back( Op( "reload" ).set( "mm", (long) r.below( 2 ) ).set( "force", r.chance( 1, 3 ) ) );
}

void openBoard( Sim& w, const Op& op )
{
    int ver = op.num( "ver", 3 ), unit = op.num( "unit" );
    if( unit == 2 ) ver = 2;
    w.cad = op.num( "cad" ) ? IDF3::CAD_MECH : IDF3::CAD_ELEC;
    if( w.b && op.num( "again" ) ) { w.cad = w.b->GetCadType(); w.b->Clear(); }
    else w.b.reset( new IDF3_BOARD( (IDF3::CAD_TYPE) w.cad ) );
    generate( op.u64( "seed" ), op.num( "big" ), unit, ver, w.cad, w.m );
    Writer wr( op.u64( "style" ) );
    seam::put( "/sim/in.emn", wr.board( w.m, ver ) );
    if( w.m.parts.empty() ) seam::remove( "/sim/in.emp" ); else seam::put( "/sim/in.emp", wr.library( w.m, ver ) );
    if( w.m.parts.empty() ) w.m.lver = 0;
    w.source.clear();
}

void runI04( const Script& s )
{
    Sim w;
    int edits = 0;
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "open" )
        {
            seam::set_clock( op.num( "now", 1700000000 ), {} );
            openBoard( w, op );
            bool ok;
            { Armed a( op ); ok = w.b->ReadFile( "/sim/in.emn", op.num( "nosubst" ) ); }
            if( !ok && getenv( "SIM_DUMP" ) ) fputs( ( seam::get( "/sim/in.emn" ) + seam::get( "/sim/in.emp" ) ).c_str(), stderr );
            REQUIRE( ok, "valid-board-refused", w.b->GetError() );
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a load left a file open" );
            compose( w.m, !op.num( "nosubst" ) );
            w.live = true;
            w.look();
        }
        else if( !w.live ) continue;
        else if( op.name == "edit" ) { w.edit( op ); ++edits; w.look(); }
        else if( op.name == "save" || op.name == "reload" )
        {
            bool mm = op.num( "mm" ), force = op.num( "force" ), ok;
            { Armed a( op ); ok = w.b->WriteFile( "/sim/out.emn", mm, force ); }
            REQUIRE( ok, "save-refused", w.b->GetError() );
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a save left a file open" );
            w.saved( mm, force );
            Brd g;
            w.expectFiles( "/sim/out", &g );
            w.look();
            trace( strf( "save %zu %zu", seam::get( "/sim/out.emn" ).size(), seam::get( "/sim/out.emp" ).size() ) );
            if( edits ) Nontrivial();
            if( op.name == "reload" )
            {
                w.b.reset( new IDF3_BOARD( (IDF3::CAD_TYPE) w.cad ) );
                REQUIRE( w.b->ReadFile( "/sim/out.emn", false ), "own-file-refused", w.b->GetError() );
                w.adopt( g );
                compose( w.m, true );
                w.look();
                ++g_stats.probes["reload"];
            }
        }
    }
}
RegScenario rI04( Scenario{ "I04", genI04, runI04, "a run is non-trivial when a board was edited through the interface and then written" } );

// ---------------------------------------------------------------- I05: boards on a failing disk
long where( Rng& r )
{
    switch( r.below( 6 ) )
    {
        case 0: return 1 + r.below( 3 );
        case 1: return 1 + r.below( 12 );
        case 2: return -(long) r.below( 3 );
        case 3: return -(long) r.below( 12 );
        default: return PERMILLE + r.below( 1001 );
    }
}
void hardSave( Rng& r, Op& op )
{
    static const std::vector<std::string> E = { "eio", "enospc", "edquot" };
    switch( r.below( 6 ) )
    {
        case 0: op.fault( 'o', 1 + r.below( 2 ), r.pick( std::vector<std::string>{ "eio", "enospc", "eacces", "emfile", "erofs" } ) ); break;
        case 1: case 2: op.fault( 'w', where( r ), r.pick( E ) ); break;
        case 3: op.set( "full", r.chance( 1, 2 ) ? (long) r.below( 1000 ) : -1 - (long) r.below( r.chance( 1, 2 ) ? 3 : 300 ) ); break;
        case 4: op.fault( 'c', 1 + r.below( 2 ), r.pick( E ), r.chance( 1, 2 ) ? 0 : 1 + r.below( 4000 ) ); break;
        default: { long at = where( r ); op.fault( 'w', at, "short", 1 + r.below( r.chance( 1, 2 ) ? 100 : 8000 ) ); op.fault( 'w', at > 0 && at < PERMILLE ? at + 1 : where( r ), r.pick( E ) ); }
    }
    if( r.chance( 1, 2 ) ) op.set( "chunk", r.pick( std::vector<long>{ 1, 7, 80, 511, 4096 } ) );
}
void genI05( uint64_t seed, bool thorough, Script& s )
{
    static const std::vector<std::string> kinds = { "flip", "digit", "trunc", "bytes", "dropline", "dupline", "swapline", "joinline", "moveline", "section", "token", "token", "token", "value", "value" };
    Rng r( seed );
    auto open = [&]( bool again )
    {
        Op o( "open" );
        o.set( "seed", std::to_string( r.next() ) ).set( "style", std::to_string( r.next() ) ).set( "ver", r.chance( 1, 3 ) ? 2 : 3 ).set( "unit", (long) r.below( 3 ) )
         .set( "cad", (long) r.below( 2 ) ).set( "big", r.chance( 1, thorough ? 2 : 4 ) ? 2 : (long) r.below( 2 ) );
        if( o.num( "unit" ) == 2 ) o.set( "ver", 2 );
        if( again ) o.set( "again", 1 );
        return o;
    };
    s.ops.push_back( open( false ) );
    int n = 2 + r.below( thorough ? 30 : 12 );
    for( int i = 0; i < n; ++i )
    {
        if( r.chance( 1, 3 ) ) { s.ops.push_back( Op( "edit" ).set( "k", (long) r.below( 24 ) ).set( "seed", std::to_string( r.next() ) ) ); continue; }
        if( r.chance( 2, 3 ) )
        {
            Op w( "save" );
            w.set( "mm", (long) r.below( 2 ) ).set( "force", r.chance( 1, 3 ) ).set( "at", (long) r.below( 2 ) );
            if( r.chance( 1, 6 ) ) w.set( "align", r.range( -3, 30 ) );
            if( r.chance( 3, 4 ) ) hardSave( r, w ); else if( r.chance( 1, 2 ) ) BenignWrite( r, w );
            s.ops.push_back( w );
            continue;
        }
        // a load, into the same object
        Op o = open( true );
        o.name = "load";
        if( r.chance( 1, 3 ) ) o.set( "fresh", 1 );
        switch( r.below( 6 ) )
        {
            case 0: o.fault( 'o', 1 + r.below( 2 ), r.pick( std::vector<std::string>{ "eio", "eacces", "emfile" } ) ); break;
            case 1: case 2: o.fault( 'r', where( r ), "eio" ); o.set( "chunk", r.pick( std::vector<long>{ 7, 80, 81, 333, 1024, 4096 } ) ); break;
            case 3: if( r.chance( 1, 2 ) ) o.set( "missing", 1 ); else BenignRead( r, o ); break;
            default: for( int k = 1 + r.below( 3 ); k-- > 0; ) o.set( "dmg" + std::to_string( k ), r.pick( kinds ) ); o.set( "dseed", std::to_string( r.next() ) );
        }
        s.ops.push_back( o );
    }
    Op w( "save" );
    w.set( "mm", (long) r.below( 2 ) );
    s.ops.push_back( w );
}
void vacant( IDF3_BOARD& b )
{
    REQUIRE( b.GetBoardName().empty() && b.GetBoardSource().empty() && b.GetBoardDate().empty() && b.GetLibrarySource().empty() && b.GetLibraryDate().empty() && b.GetIDFSource().empty()
             && b.GetBoardVersion() == 0 && b.GetLibraryVersion() == 0, "left-over", "the header of a board which was refused" );
    REQUIRE( b.GetComponents()->empty() && b.GetComponentOutlines().empty() && b.GetBoardDrills().empty() && b.GetOtherOutlines()->empty(), "left-over", "parts of a board which was refused" );
    REQUIRE( b.GetBoardOutlinesSize() == 0 && b.GetBoardOutlines()->empty() && b.GetBoardOutline()->CommentsSize() == 0 && b.GetBoardOutline()->GetOwner() == IDF3::UNOWNED, "left-over", "the outline of a board which was refused" );
}
void runI05( const Script& s )
{
    Sim w;
    seam::alloc_limit = 64ull << 20;
    seam::set_clock( 1700000000, {} );
    bool failed = false;
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "open" || op.name == "load" )
        {
            if( op.name == "load" && w.b && op.num( "fresh" ) ) { w.cad = w.b->GetCadType(); w.b.reset( new IDF3_BOARD( (IDF3::CAD_TYPE) w.cad ) ); Op q = op; q.set( "cad", w.cad == IDF3::CAD_MECH ); openBoard( w, q ); }
            else openBoard( w, op );
            std::string emn = seam::get( "/sim/in.emn" ), emp = seam::get( "/sim/in.emp" );
            bool damaged = false;
            if( op.has( "dseed" ) )
            {
                Rng r( op.u64( "dseed" ) );
                std::string e0 = emn, p0 = emp;
                for( int k = 0; k < 3; ++k ) if( op.has( "dmg" + std::to_string( k ) ) )
                {
                    std::string& t = !emp.empty() && r.chance( 1, 3 ) ? emp : emn;
                    t = DamageIdf( t, Op( op.txt( "dmg" + std::to_string( k ) ) ).set( "seed", (long) ( r.next() >> 2 ) ) );
                }
                damaged = e0 != emn || p0 != emp;
                seam::put( "/sim/in.emn", emn );
                if( seam::exists( "/sim/in.emp" ) ) seam::put( "/sim/in.emp", emp );
                if( getenv( "SIM_DUMP" ) ) { fputs( emn.c_str(), stderr ); fputs( emp.c_str(), stderr ); }
            }
            if( op.num( "missing" ) ) seam::remove( "/sim/in.emn" );
            Op q = Resolve( op, [&] { IDF3_BOARD t( (IDF3::CAD_TYPE) w.cad ); t.ReadFile( "/sim/in.emn", false ); } );
            if( seam::exists( "/sim/in.emn" ) ) seam::put( "/sim/in.emn", emn );
            if( seam::exists( "/sim/in.emp" ) ) seam::put( "/sim/in.emp", emp );
            bool ok, hit;
            { Armed a( q ); ok = w.b->ReadFile( "/sim/in.emn", false ); hit = seam::io_error_fired(); }
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a load left a file open" );
            REQUIRE( seam::get( "/sim/in.emn" ) == ( op.num( "missing" ) ? "" : emn ) && seam::get( "/sim/in.emp" ) == emp, "input-changed", "a load changed a file" );
            trace( strf( "load %d %d", ok, hit ) );
            ++g_stats.probes[ok ? "loaded" : "load-refused"];
            if( ok && !damaged )
            {
                REQUIRE( !hit, "load-acknowledged", "the load was acknowledged although reading failed" );
                REQUIRE( seam::delivered( "/sim/in.emn" ) == emn.size() && seam::delivered( "/sim/in.emp" ) == emp.size(), "load-acknowledged", "the load was acknowledged although a file was not read to its end" );
                compose( w.m, true );
                w.live = true;
                w.look();
                if( failed ) Nontrivial();
            }
            else if( ok )
            {   // accepted with damage: what it is now is not known, but it must work
                w.live = false;
                if( !w.b->WriteFile( "/sim/any.emn", true, true ) ) REQUIRE( !w.b->GetError().empty(), "no-error", "a save failed without saying why" );
                REQUIRE( seam::open_handles() == 0, "handle-leak", "a save left a file open" );
                w.b->Clear();
                vacant( *w.b );
            }
            else
            {
                REQUIRE( hit || damaged || op.num( "missing" ), "valid-board-refused", w.b->GetError() );
                REQUIRE( !w.b->GetError().empty(), "no-error", "a load failed without saying why" );
                vacant( *w.b );
                w.live = false;
                failed = true;
            }
        }
        else if( !w.live ) continue;
        else if( op.name == "edit" ) { w.edit( op ); w.look(); }
        else if( op.name == "save" )
        {
            bool mm = op.num( "mm" ), force = op.num( "force" ), ok, hit;
            // what a save without faults delivers
            auto probe = [&]( const Op& shape )
            {
                Armed a( shape );
                REQUIRE( w.b->WriteFile( "/sim/probe/b.emn", mm, force ), "save-refused", w.b->GetError() );
            };
            Brd was = w.m;
            Op shape;
            if( op.has( "chunk" ) ) shape.set( "chunk", op.num( "chunk" ) );
            auto back = [&] { REQUIRE( w.b->SetBoardVersion( was.ver ) && w.b->SetLibraryVersion( was.lver ), "version", "refused" ); w.m.ver = was.ver; w.m.lver = was.lver; };
            probe( shape );
            if( op.has( "align" ) )
            {   // the end of the board file near the end of a stream buffer
                long n = ( op.num( "align" ) - 3 - (long) seam::get( "/sim/probe/b.emn" ).size() ) % 8191;
                if( n <= 0 ) n += 8191;
                std::string pad( n, 'x' );
                w.b->GetBoardOutline()->AddComment( pad );
                w.m.outs[0].com.push_back( pad );
                back();
                probe( shape );
            }
            w.saved( mm, force );
            w.expectFiles( "/sim/probe/b" );
            std::string emn = seam::get( "/sim/probe/b.emn" ), emp = seam::get( "/sim/probe/b.emp" );
            back();
            Op q = op;
            long all = emn.size() + emp.size();
            if( op.has( "full" ) ) q.set( "cap", std::max( 0L, op.num( "full" ) >= 0 ? all * op.num( "full" ) / 1000 : all + op.num( "full" ) ) );
            q = Resolve( q, [&] { w.b->WriteFile( "/sim/probe/c.emn", mm, force ); } );
            back();
            std::string stem = op.num( "at" ) ? "/sim/out" : "/sim/two";
            { Armed a( q ); ok = w.b->WriteFile( stem + ".emn", mm, force ); hit = seam::io_error_fired(); }
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a save left a file open" );
            REQUIRE( seam::get( "/sim/probe/b.emn" ) == emn && seam::get( "/sim/probe/b.emp" ) == emp, "bystander", "a save changed a file it was not given" );
            trace( strf( "save %d %d", ok, hit ) );
            ++g_stats.probes[ok ? "saved" : "save-failed"];
            if( ok )
            {
                ++w.m.ver; ++w.m.lver;
                std::string d1 = FirstDiff( emn, seam::get( stem + ".emn" ) ), d2 = FirstDiff( emp, seam::get( stem + ".emp" ) );
                REQUIRE( d1.empty() && d2.empty(), "save-acknowledged", "the save was acknowledged but the " + std::string( d1.empty() ? "library: " + d2 : "board: " + d1 ) );
                if( failed ) Nontrivial();
            }
            else
            {
                REQUIRE( hit, "save-refused", w.b->GetError() );
                REQUIRE( !w.b->GetError().empty(), "no-error", "a save failed without saying why" );
                int v = w.b->GetBoardVersion(), l = w.b->GetLibraryVersion();
                REQUIRE( v >= w.m.ver && v <= w.m.ver + 1 && l >= w.m.lver && l <= w.m.lver + 1, "version", strf( "a failed save set the versions %d, %d to %d, %d", w.m.ver, w.m.lver, v, l ) );
                w.m.ver = v; w.m.lver = l;
                failed = true;
            }
            w.look();
        }
    }
}
RegScenario rI05( Scenario{ "I05", genI05, runI05, "a run is non-trivial when a save or load succeeded after an injected fault or damage made another fail" } );
}
