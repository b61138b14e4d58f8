// Outlines: lines, arcs and circles combined by a history of client operations.
//   G01 the outline is what the history of accepted operations made it; refused
//       operations change nothing and leave the argument with the client
#include "scen.h"
#include "plane.h"
#include <geom/mcad_elements.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <api/dll_mcad_segment.h>
#include <api/dll_mcad_outline.h>

namespace
{
typedef std::vector<Seg> Chain;

double norm2pi( double a ) { a = std::fmod( a, 2 * PI ); return a < 0 ? a + 2 * PI : a; }
Seg line( P2 a, P2 b ) { Seg s; s.a = a; s.b = b; return s; }
Seg arc( P2 c, double r, double a0, double sw ) { Seg s; s.arc = true; s.c = c; s.r = r; s.a0 = a0; s.sw = sw; s.a = s.at( 0 ); s.b = s.at( 1 ); return s; }
bool isCircle( const Seg& s ) { return s.arc && std::fabs( std::fabs( s.sw ) - 2 * PI ) < 1e-12; }
Chain reversed( Chain v )
{
    std::reverse( v.begin(), v.end() );
    for( auto& s : v ) { std::swap( s.a, s.b ); if( s.arc ) { s.a0 += s.sw; s.sw = -s.sw; } }
    return v;
}
MCAD_POINT mp( P2 p ) { return MCAD_POINT( p.x, p.y, 0 ); }
P2 pm( MCAD_POINT p ) { return { p.x, p.y }; }
std::string str( P2 p ) { return strf( "(%.9g, %.9g)", p.x, p.y ); }
std::string str( const Chain& c )
{
    std::string o;
    for( auto& s : c )
        o += s.arc ? strf( " arc[c=%s r=%.9g from %.9g by %.9g]", str( s.c ).c_str(), s.r, s.a0, s.sw ) : strf( " line[%s -> %s]", str( s.a ).c_str(), str( s.b ).c_str() );
    return o;
}

// ---- the library's objects ---------------------------------------------------
MCAD_SEGMENT* make( const Seg& s )
{
    std::unique_ptr<MCAD_SEGMENT> m( new MCAD_SEGMENT );
    bool ok = s.arc ? m->SetParams( mp( s.c ), mp( s.a ), mp( isCircle( s ) ? s.a : s.b ), s.sw < 0 ) : m->SetParams( mp( s.a ), mp( s.b ) );
    REQUIRE( ok, "segment-refused", "SetParams refuses" + str( Chain{ s } ) );
    return m.release();
}
Seg seen( MCAD_SEGMENT* m )
{
    Seg s;
    switch( m->GetSegType() )
    {
    case MCAD_SEGTYPE_LINE: return line( pm( m->GetMStart() ), pm( m->GetMEnd() ) );
    case MCAD_SEGTYPE_CIRCLE: return circle( pm( m->GetCenter() ), m->GetRadius(), true );
    case MCAD_SEGTYPE_ARC:
        {
            s.arc = true; s.c = pm( m->GetCenter() ); s.r = m->GetRadius(); s.a = pm( m->GetMStart() ); s.b = pm( m->GetMEnd() );
            s.a0 = std::atan2( s.a.y - s.c.y, s.a.x - s.c.x );
            double a1 = std::atan2( s.b.y - s.c.y, s.b.x - s.c.x );
            s.sw = m->IsCW() ? -norm2pi( s.a0 - a1 ) : norm2pi( a1 - s.a0 );
            return s;
        }
    default: fail( "segment-without-type", "a segment of an outline has no type" );
    }
}
Chain seen( MCAD_OUTLINE& o ) { Chain c; for( auto s : *o.GetSegments() ) c.push_back( seen( s ) ); return c; }

// the angles a segment reports describe the same arc as its end points
void angles( MCAD_SEGMENT* m, const char* when )
{
    if( m->GetSegType() == MCAD_SEGTYPE_LINE ) return;
    Seg s = seen( m );
    if( m->GetSegType() == MCAD_SEGTYPE_CIRCLE ) return;
    REQUIRE( std::fabs( len( s.b - s.c ) - s.r ) < 1e-6 && std::fabs( len( s.a - s.c ) - s.r ) < 1e-6, "arc-off-circle", std::string( when ) + ": an arc of the outline does not end on its circle:" + str( Chain{ s } ) );
    double a0 = m->GetStartAngle(), a1 = m->GetEndAngle();
    // GetStart/GetEnd and the angles are in counterclockwise order
    P2 g0 = pm( m->GetStart() ), g1 = pm( m->GetEnd() );
    P2 e0 = s.sw > 0 ? s.a : s.b, e1 = s.sw > 0 ? s.b : s.a;
    REQUIRE( len( g0 - e0 ) < 1e-6 && len( g1 - e1 ) < 1e-6, "arc-order", std::string( when ) + ": GetStart/GetEnd are not the counterclockwise ends of" + str( Chain{ s } ) );
    P2 h0 = { s.c.x + s.r * std::cos( a0 ), s.c.y + s.r * std::sin( a0 ) }, h1 = { s.c.x + s.r * std::cos( a1 ), s.c.y + s.r * std::sin( a1 ) };
    REQUIRE( len( h0 - e0 ) < 1e-6 && len( h1 - e1 ) < 1e-6, "arc-angles", std::string( when ) + strf( ": angles %.9g..%.9g do not belong to", a0, a1 ) + str( Chain{ s } ) );
    REQUIRE( a1 > a0 && a1 - a0 <= 2 * PI + 1e-9 && std::fabs( a1 - a0 - std::fabs( s.sw ) ) * s.r < 1e-6, "arc-span", std::string( when ) + strf( ": angles %.9g..%.9g do not span", a0, a1 ) + str( Chain{ s } ) );
}

// ---- shapes ------------------------------------------------------------------
Chain fillet( const std::vector<P2>& v, double r )      // rounded corners, convex and concave
{
    Chain c;
    size_t n = v.size();
    std::vector<P2> in( n ), out( n );
    std::vector<double> ang( n );
    for( size_t i = 0; i < n; ++i )
    {
        P2 p = v[( i + n - 1 ) % n], q = v[i], s = v[( i + 1 ) % n], d = q - p, e = s - q;
        double w = std::atan2( d.x * e.y - d.y * e.x, d.x * e.x + d.y * e.y ), t = r * std::tan( std::fabs( w ) / 2 );
        in[i] = q - d * ( t / len( d ) ); out[i] = q + e * ( t / len( e ) ); ang[i] = w;
    }
    for( size_t i = 0; i < n; ++i )
    {
        P2 d = v[i] - v[( i + n - 1 ) % n];
        d = d * ( 1 / len( d ) );
        double sg = ang[i] > 0 ? 1 : -1;
        P2 ce = { in[i].x - sg * d.y * r, in[i].y + sg * d.x * r };
        Seg a = arc( ce, r, std::atan2( in[i].y - ce.y, in[i].x - ce.x ), ang[i] );
        a.a = in[i]; a.b = out[i];
        c.push_back( a );
        c.push_back( line( out[i], in[( i + 1 ) % n] ) );
    }
    return c;
}

Seg over( P2 p, P2 q, double ww )        // arc with an included angle
{
    P2 m = ( p + q ) * 0.5, d = q - p; double k = 0.5 / std::tan( ww / 2 );
    P2 ce = { m.x - d.y * k, m.y + d.x * k };
    Seg s = arc( ce, len( p - ce ), std::atan2( p.y - ce.y, p.x - ce.x ), ww );
    s.a = p; s.b = q;
    return s;
}
Chain shape( Rng& r, P2 at, double size, bool grid )
{
    auto g = [&]( double x ) { return grid ? std::max( 0.25, std::round( x * 4 ) / 4 ) : x; };
    auto gp = [&]( P2 p ) { return grid ? P2{ std::round( p.x * 4 ) / 4, std::round( p.y * 4 ) / 4 } : p; };
    at = gp( at );
    double w = g( size * r.real( 0.3, 1 ) ), h = g( size * r.real( 0.3, 1 ) );
    Chain c;
    std::vector<P2> v;
    auto poly = [&]( const std::vector<P2>& p ) { for( size_t i = 0; i < p.size(); ++i ) c.push_back( line( p[i], p[( i + 1 ) % p.size()] ) ); };
    double rot = grid ? ( r.below( 4 ) * PI / 2 ) : r.real( -PI, PI );
    auto turn = [&]( P2 p ) { P2 o = { at.x + p.x * std::cos( rot ) - p.y * std::sin( rot ), at.y + p.x * std::sin( rot ) + p.y * std::cos( rot ) }; return gp( o ); };
    switch( r.below( 12 ) )
    {
    case 0: c.push_back( circle( at, w, r.chance( 1, 2 ) ) ); break;
    case 1: poly( { { at.x - w, at.y - h }, { at.x + w, at.y - h }, { at.x + w, at.y + h }, { at.x - w, at.y + h } } ); break;
    case 2: v = { turn( { -w, -h } ), turn( { w, -h } ), turn( { w, h } ), turn( { -w, h } ) }; poly( v ); break;
    case 3:
        {   // star-shaped polygon
            int n = r.range( 3, 9 );
            for( int i = 0; i < n; ++i ) { double a = 2 * PI * ( i + r.real( 0, 0.5 ) ) / n, d = size * r.real( 0.45, 1 ); v.push_back( gp( { at.x + d * std::cos( a ), at.y + d * std::sin( a ) } ) ); }
            poly( v );
            break;
        }
    case 4:
        {   // slot
            double rr = std::min( w, h ) * 0.5;
            double a = rot + PI / 2;
            P2 u = { std::cos( rot ), std::sin( rot ) }, A = at - u * w, B = at + u * w;
            Seg e = arc( B, rr, a - PI, PI ), f = arc( A, rr, a, PI );
            c = { line( f.b, e.a ), e, line( e.b, f.a ), f };
            break;
        }
    case 5:
        v = { turn( { -w, -h } ), turn( { w, -h } ), turn( { w, h } ), turn( { -w, h } ) };
        if( ccw( Chain{ line( v[0], v[1] ), line( v[1], v[2] ), line( v[2], v[3] ), line( v[3], v[0] ) } ) < 0 ) std::reverse( v.begin(), v.end() );
        c = fillet( v, std::min( w, h ) * r.real( 0.1, 0.8 ) );
        break;
    case 6:
        {   // segment of a disk
            double sw = r.chance( 1, 3 ) ? PI : r.real( 0.6, 5.6 );
            Seg a = arc( at, w, rot, sw );
            c = { a, line( a.b, a.a ) };
            break;
        }
    case 7:
        {   // lens: two arcs over one chord
            P2 u = { std::cos( rot ), std::sin( rot ) }, A = at - u * w, B = at + u * w;
            double a1 = r.real( 0.5, 4.5 ), a2 = r.chance( 1, 3 ) && a1 > 1.2 ? -r.real( 0.3, a1 - 0.6 ) : r.real( 0.5, 4.5 );
            c = { over( A, B, a1 ), over( B, A, a2 ) };
            break;
        }
    case 8:
        {   // disk with a slot, which may reach beyond its middle
            double q = w * r.real( 0.06, 0.3 ), al = std::asin( q / w ), x = std::sqrt( w * w - q * q ), d = r.chance( 2, 3 ) ? -w * r.real( 0.3, 0.85 ) : w * r.real( -0.3, 0.6 );
            auto to = [&]( double px, double py ) { return P2{ at.x + px * std::cos( rot ) - py * std::sin( rot ), at.y + px * std::sin( rot ) + py * std::cos( rot ) }; };
            Seg a = arc( at, w, rot + al, 2 * PI - 2 * al );
            a.a = to( x, q ); a.b = to( x, -q );
            P2 e = to( d, -q ), f = to( d, q );
            c = { a, line( a.b, e ), line( e, f ), line( f, a.a ) };
            break;
        }
    case 9:
        {   // part of a ring
            double b = w * r.real( 0.35, 0.8 ), th = r.real( 1, 5.8 );
            Seg a = arc( at, w, rot, th ), d = arc( at, b, rot + th, -th );
            c = { a, line( a.b, d.a ), d, line( d.b, a.a ) };
            break;
        }
    case 10:
        {   // polygon with arcs for sides
            int n = r.range( 3, 6 );
            for( int i = 0; i < n; ++i ) v.push_back( { at.x + w * 0.6 * std::cos( rot + 2 * PI * i / n ), at.y + w * 0.6 * std::sin( rot + 2 * PI * i / n ) } );
            double in = 0.8 * ( PI - 2 * PI / n ), ex = PI + 1.2 * PI / n;
            for( int i = 0; i < n; ++i )
                if( r.chance( 3, 4 ) ) c.push_back( over( v[i], v[( i + 1 ) % n], r.chance( 1, 4 ) ? -r.real( 0.3 * in, in ) : r.real( 0.6, ex ) ) );
                else c.push_back( line( v[i], v[( i + 1 ) % n] ) );
            break;
        }
    default:
        {   // L, with rounded corners convex and concave
            double x = w * 0.4, y = h * 0.4;
            v = { turn( { -w, -h } ), turn( { w, -h } ), turn( { w, -h + 2 * y } ), turn( { -w + 2 * x, -h + 2 * y } ), turn( { -w + 2 * x, h } ), turn( { -w, h } ) };
            Chain t; for( size_t i = 0; i < v.size(); ++i ) t.push_back( line( v[i], v[( i + 1 ) % v.size()] ) );
            if( ccw( t ) < 0 ) std::reverse( v.begin(), v.end() );
            double m = 1e9; for( size_t i = 0; i < v.size(); ++i ) m = std::min( m, len( v[i] - v[( i + 1 ) % v.size()] ) );
            if( r.chance( 1, 2 ) && m > 0.05 ) c = fillet( v, m * r.real( 0.1, 0.45 ) ); else poly( v );
        }
    }
    for( auto& s : c ) if( s.length() < 0.05 ) return {};
    if( c.size() > 1 && std::fabs( ccw( c ) ) < 0.02 ) return {};
    if( c.size() > 1 && r.chance( 1, 3 ) ) c = reversed( c );
    if( c.size() > 1 ) std::rotate( c.begin(), c.begin() + r.below( c.size() ), c.end() );
    return c;
}
bool selfCross( const Chain& c )
{
    for( size_t i = 0; i < c.size(); ++i )
        for( size_t j = 0; j < c.size(); ++j )
        {
            if( i == j ) continue;
            std::vector<double> t; meet( c[i], c[j], t );
            for( double k : t ) if( k * c[i].length() > 1e-6 && ( 1 - k ) * c[i].length() > 1e-6 ) return true;
            // nearly touching ends of segments which are not neighbours
            if( j != ( i + 1 ) % c.size() && i != ( j + 1 ) % c.size() && ( len( c[i].a - c[j].a ) < 0.01 || len( c[i].b - c[j].b ) < 0.01 ) ) return true;
        }
    return false;
}

// distance of a point from a segment
double off( const Seg& s, P2 p )
{
    double d = std::min( len( p - s.at( 0 ) ), len( p - s.at( 1 ) ) );
    if( s.arc )
    {
        double t = onArc( s, std::atan2( p.y - s.c.y, p.x - s.c.x ) );
        if( t <= 1 || isCircle( s ) ) d = std::min( d, std::fabs( len( p - s.c ) - s.r ) );
    }
    else
    {
        P2 u = s.b - s.a; double t = ( ( p.x - s.a.x ) * u.x + ( p.y - s.a.y ) * u.y ) / ( u.x * u.x + u.y * u.y );
        if( t > 0 && t < 1 ) d = std::min( d, len( p - s.at( t ) ) );
    }
    return d;
}
double off( const Chain& c, P2 p ) { double d = 1e9; for( auto& s : c ) d = std::min( d, off( s, p ) ); return d; }

P2 dirAt( const Seg& s, double t ) { if( !s.arc ) { P2 d = s.b - s.a; return d * ( 1 / len( d ) ); } double w = s.a0 + s.sw * t, g = s.sw > 0 ? 1 : -1; return { -g * std::sin( w ), g * std::cos( w ) }; }

// proper crossings of two segments; false if they come too close to touching to tell
bool cross( const Seg& s, const Seg& o, std::vector<P2>& pts )
{
    const double TOL = 2e-3;
    if( s.arc && o.arc )
    {
        double D = len( s.c - o.c );
        if( std::fabs( D - s.r - o.r ) < TOL || std::fabs( D - std::fabs( s.r - o.r ) ) < TOL )
        {   // only if the arcs themselves are near there
            for( int i = 0; i <= 16; ++i ) if( off( o, s.at( i / 16.0 ) ) < 0.2 ) return false;
        }
    }
    else if( s.arc != o.arc )
    {
        const Seg& L = s.arc ? o : s; const Seg& A = s.arc ? s : o;
        P2 u = dirAt( L, 0 ), w = A.c - L.a;
        if( std::fabs( std::fabs( w.x * u.y - w.y * u.x ) - A.r ) < TOL ) { for( int i = 0; i <= 16; ++i ) if( off( o, s.at( i / 16.0 ) ) < 0.2 ) return false; }
    }
    if( !isCircle( s ) && ( off( o, s.at( 0 ) ) < TOL || off( o, s.at( 1 ) ) < TOL ) ) return false;
    if( !isCircle( o ) && ( off( s, o.at( 0 ) ) < TOL || off( s, o.at( 1 ) ) < TOL ) ) return false;
    std::vector<double> t;
    meet( s, o, t );
    for( double k : t )
    {
        P2 p = s.at( k );
        double to = o.arc ? onArc( o, std::atan2( p.y - o.c.y, p.x - o.c.x ) ) : 0;
        P2 a = dirAt( s, k ), b = dirAt( o, to );
        if( std::fabs( a.x * b.y - a.y * b.x ) < 0.03 ) return false;
        for( auto& q : pts ) if( len( p - q ) < TOL ) return false;
        pts.push_back( p );
    }
    // the zero direction of a circle, where the parameters of meet() end
    for( const Seg* z : { &s, &o } ) if( isCircle( *z ) && off( z == &s ? o : s, z->at( 0 ) ) < TOL ) return false;
    return true;
}
bool crossings( const Chain& a, const Chain& b, std::vector<P2>& pts )
{
    for( auto& s : a ) for( auto& o : b ) if( !cross( s, o, pts ) ) return false;
    return true;
}

// result of an operation with two crossings
Chain combined( const Chain& a, const Chain& b, bool sub )
{
    Chain pieces;
    for( int k = 0; k < 2; ++k )
    {
        const Chain& x = k ? b : a; const Chain& y = k ? a : b;
        bool wantIn = k == 1 && sub;
        Chain mine;
        for( auto& s : x )
        {
            std::vector<double> t = { 0, 1 };
            for( auto& o : y ) meet( s, o, t );
            std::sort( t.begin(), t.end() );
            for( size_t i = 1; i < t.size(); ++i )
            {
                if( ( t[i] - t[i - 1] ) * s.length() < 1e-9 ) continue;      // rounding at a corner
                Seg p = part( s, t[i - 1], t[i] );
                if( insideLoop( y, p.at( 0.5 ) ) == wantIn ) mine.push_back( p );
            }
        }
        if( wantIn ) mine = reversed( mine );
        pieces.insert( pieces.end(), mine.begin(), mine.end() );
    }
    return pieces;
}

bool closed( const Chain& c )
{
    for( auto& s : c )
    {
        if( s.length() < 1e-6 || isCircle( s ) ) continue;
        bool next = false;
        for( auto& o : c ) if( len( o.at( 0 ) - s.at( 1 ) ) < 1e-6 ) next = true;
        if( !next ) return false;
    }
    return true;
}

void bounds( const Chain& c, P2& lo, P2& hi )
{
    lo = { 1e9, 1e9 }; hi = { -1e9, -1e9 };
    for( auto& s : c ) for( int i = 0; i <= 64; ++i ) { P2 p = s.at( i / 64.0 ); lo.x = std::min( lo.x, p.x ); lo.y = std::min( lo.y, p.y ); hi.x = std::max( hi.x, p.x ); hi.y = std::max( hi.y, p.y ); }
}

// ---- one client ----------------------------------------------------------------
struct World
{
    std::unique_ptr<MCAD_OUTLINE> o;
    Chain m;                                // what the outline is, counterclockwise
    std::vector<Chain> cuts;
    Chain holes;
    std::string at;
    std::string last;                       // the operation which made it, for the reports

    static std::unique_ptr<MCAD_OUTLINE> build( const Chain& c )
    {
        std::unique_ptr<MCAD_OUTLINE> r( new MCAD_OUTLINE );
        for( size_t i = 0; i < c.size(); ++i )
        {
            std::unique_ptr<MCAD_SEGMENT> s( make( c[i] ) );
            bool err = true;
            REQUIRE( !r->IsClosed(), "closed-early", strf( "the outline is closed after %zu of %zu segments:", i, c.size() ) + str( c ) );
            bool ok = r->AddSegment( s.get(), err );
            REQUIRE( ok && !err, "segment-not-added", strf( "segment %zu of", i ) + str( c ) + " was not added" );
            s.release();
        }
        REQUIRE( r->IsClosed(), "not-closed", "the outline is not closed:" + str( c ) );
        return r;
    }
    static bool same( const Chain& a, const Chain& b )
    {
        if( a.size() != b.size() ) return false;
        for( size_t i = 0; i < a.size(); ++i )
            if( a[i].arc != b[i].arc || len( a[i].at( 0 ) - b[i].at( 0 ) ) > 1e-12 || len( a[i].at( 1 ) - b[i].at( 1 ) ) > 1e-12
                || ( a[i].arc && ( len( a[i].c - b[i].c ) > 1e-12 || std::fabs( a[i].r - b[i].r ) > 1e-12 || std::fabs( a[i].sw - b[i].sw ) > 1e-12 ) ) ) return false;
        return true;
    }
    // the outline is a closed counterclockwise chain, with the area and the points of `want`
    void verify( MCAD_OUTLINE& got, const Chain& want, const std::string& what, uint64_t seed ) const
    {
        REQUIRE( got.IsClosed(), "not-closed", what + ": the result is not closed" );
        Chain g = seen( got );
        std::string ctx = what + "\n  expected" + str( want ) + "\n  found" + str( g );
        REQUIRE( !g.empty(), "empty", ctx );
        for( auto s : *got.GetSegments() ) angles( s, what.c_str() );
        if( !( g.size() == 1 && isCircle( g[0] ) ) )
            for( size_t i = 0; i < g.size(); ++i )
                REQUIRE( len( g[i].at( 0 ) - g[( i + g.size() - 1 ) % g.size()].at( 1 ) ) < 1e-6, "gap", strf( "segment %zu does not start where the one before it ends; ", i ) + ctx );
        REQUIRE( got.IsContiguous(), "contiguous", "IsContiguous denies it; " + ctx );
        Integrals a, b;
        for( auto& s : g ) addSeg( s, a );
        for( auto& s : want ) addSeg( s, b );
        double tol = 1e-5 * ( 1 + b.l );
        REQUIRE( std::fabs( a.area - b.area ) < tol && std::fabs( a.mx - b.mx ) < tol * 20 && std::fabs( a.my - b.my ) < tol * 20 && std::fabs( a.l - b.l ) < tol, "wrong-outline",
                 strf( "area %.9g length %.9g instead of area %.9g length %.9g; ", a.area, a.l, b.area, b.l ) + ctx );
        REQUIRE( a.area > 0, "orientation", "the outline is not counterclockwise; " + ctx );
        P2 lo, hi;
        bounds( want, lo, hi );
        Rng r( seed );
        for( int i = 0; i < 40; ++i )
        {
            P2 p = { r.real( lo.x, hi.x ), r.real( lo.y, hi.y ) };
            if( off( want, p ) < 1e-3 ) continue;
            REQUIRE( insideLoop( want, p ) == insideLoop( g, p ), "wrong-outline", "point " + str( p ) + " is on the wrong side; " + ctx );
        }
    }
    void unchanged( const std::string& what )
    {
        Chain g = seen( *o );
        REQUIRE( o->IsClosed() && same( g, m ), "refused-but-changed", what + " was refused and changed the outline\n  from" + str( m ) + "\n  to" + str( g ) );
        sides( what );
    }
    void sides( const std::string& what )
    {
        REQUIRE( o->GetCutouts()->size() == cuts.size(), "cutouts", what + strf( ": %zu cutouts instead of %zu", o->GetCutouts()->size(), cuts.size() ) );
        REQUIRE( o->GetDrillHoles()->size() == holes.size(), "holes", what + strf( ": %zu holes instead of %zu", o->GetDrillHoles()->size(), holes.size() ) );
        size_t i = 0;
        for( auto c : *o->GetCutouts() ) { REQUIRE( same( seen( *c ), cuts[i] ), "cutout-changed", what + strf( " changed cutout %zu", i ) ); ++i; }
        i = 0;
        for( auto c : *o->GetDrillHoles() ) { REQUIRE( same( { seen( c ) }, { holes[i] } ), "hole-changed", what + strf( " changed hole %zu", i ) ); ++i; }
    }
};

// an argument for the current outline with `want` crossings (-1 inside, -2 outside, -3 around, 3 more than two)
bool argument( Rng& r, const World& w, int want, bool circ, Chain& c, std::vector<P2>& pts )
{
    P2 lo, hi;
    bounds( w.m, lo, hi );
    double size = std::max( hi.x - lo.x, hi.y - lo.y );
    for( int k = 0; k < 60; ++k )
    {
        bool grid = r.chance( 1, 2 );
        P2 at = w.m[r.below( w.m.size() )].at( r.unit() );
        double s = size * r.real( 0.05, 0.5 );
        if( want == -1 ) { at = { r.real( lo.x, hi.x ), r.real( lo.y, hi.y ) }; s = size * r.real( 0.02, 0.25 ); }
        if( want == -2 ) { at = { r.real( lo.x - size, hi.x + size ), r.real( lo.y - size, hi.y + size ) }; }
        if( want == -3 ) { at = ( lo + hi ) * 0.5; s = size * r.real( 1.5, 3 ); }
        if( want == 3 ) s = size * r.real( 0.2, 1 );
        c = circ ? Chain{ circle( at, std::max( 0.1, s ), true ) } : shape( r, at, std::max( 0.3, s ), grid );
        if( c.empty() || selfCross( c ) ) continue;
        pts.clear();
        if( !crossings( w.m, c, pts ) ) continue;
        P2 l2, h2;
        bounds( c, l2, h2 );
        if( want == 2 && pts.size() != 2 ) continue;
        if( want == 3 && pts.size() < 3 ) continue;
        if( want < 0 )
        {
            if( !pts.empty() ) continue;
            bool in = insideLoop( w.m, c[0].at( 0 ) ), around = insideLoop( c, w.m[0].at( 0 ) );
            if( ( want == -1 ) != in || ( want == -3 ) != around ) continue;
        }
        return true;
    }
    return false;
}

// a polygon which crosses the outline at corners of either: two points of the outline, one way
// between them inside and one outside
bool cornered( Rng& r, const World& w, bool circ, Chain& c, std::vector<P2>& pts )
{
    P2 lo, hi;
    bounds( w.m, lo, hi );
    double size = std::max( hi.x - lo.x, hi.y - lo.y );
    for( int k = 0; k < 200; ++k )
    {
        P2 b[2];
        for( auto& p : b ) { auto& s = w.m[r.below( w.m.size() )]; p = s.at( r.chance( 1, 2 ) ? 0 : r.chance( 1, 2 ) ? 0.5 : r.real( 0.1, 0.9 ) ); }
        if( len( b[0] - b[1] ) < 0.1 ) continue;
        auto some = [&]( bool in, std::vector<P2>& o, int n )
        {
            for( int i = 0; i < n; ++i )
                for( int j = 0; j < 20; ++j )
                {
                    P2 near = ( b[0] + b[1] ) * 0.5;
                    P2 p = { near.x + r.real( -0.4, 0.4 ) * size, near.y + r.real( -0.4, 0.4 ) * size };
                    if( insideLoop( w.m, p ) != in || off( w.m, p ) < 0.02 ) continue;
                    o.push_back( p );
                    break;
                }
            return !o.empty();
        };
        std::vector<P2> in, out, v;
        if( !some( true, in, r.range( 1, 2 ) ) || !some( false, out, r.range( 1, 2 ) ) ) continue;
        // b1 in... b2 out...; a corner may be left out if its neighbours are in line with it
        bool through = r.chance( 1, 3 ), arcs = r.chance( 1, 2 );
        if( through ) { P2 d = b[0] - in[0]; out.push_back( b[0] + d * r.real( 0.1, 0.6 ) ); if( insideLoop( w.m, out.back() ) ) continue; }
        if( !through ) v.push_back( b[0] );
        v.insert( v.end(), in.begin(), in.end() );
        v.push_back( b[1] );
        v.insert( v.end(), out.begin(), out.end() );
        c.clear();
        bool ok = true;
        for( size_t i = 0; i < v.size(); ++i ) c.push_back( line( v[i], v[( i + 1 ) % v.size()] ) );
        for( auto& s : c ) if( s.length() < 0.1 ) ok = false;
        if( ok && arcs ) for( auto& s : c ) if( r.chance( 1, 2 ) ) s = over( s.a, s.b, r.real( 0.3, 2.5 ) * ( r.chance( 1, 2 ) ? 1 : -1 ) );
        if( circ )
        {
            P2 m = ( b[0] + b[1] ) * 0.5, d = b[1] - b[0];
            P2 ce = r.chance( 1, 2 ) ? m + P2{ -d.y, d.x } * r.real( -1, 1 ) : b[0] + P2{ r.real( -0.5, 0.5 ), r.real( -0.5, 0.5 ) } * size;
            double rad = len( b[0] - ce );
            if( rad < 0.1 ) continue;
            c = { circle( ce, rad, true ) };
            if( std::fabs( len( b[1] - ce ) - rad ) > 1e-12 * ( 1 + rad ) ) b[1] = b[0];
        }
        if( !ok || ( !circ && ( std::fabs( ccw( c ) ) < 0.05 || selfCross( c ) ) ) ) continue;
        auto atB = [&]( P2 p ) { return std::min( len( p - b[0] ), len( p - b[1] ) ); };
        for( auto& s : w.m ) if( off( c, s.at( 0 ) ) < 0.01 && atB( s.at( 0 ) ) > 1e-9 ) ok = false;
        std::vector<P2> other;
        int change = 0;
        bool was = false, first = true, start = false;
        for( auto& s : c )
            for( int i = 0; i < ( circ ? 256 : 64 ) && ok; ++i )
            {
                P2 p = s.at( ( i + 0.5 ) / ( circ ? 256 : 64 ) );
                double d = atB( p );
                if( d < 1e-6 ) continue;
                if( !circ && off( w.m, p ) < std::min( 0.01, 0.05 * d ) ) ok = false;
                bool now = insideLoop( w.m, p );
                if( first ) start = now; else if( now != was ) ++change;
                was = now; first = false;
            }
        if( was != start ) ++change;
        for( auto& s : c ) for( auto& o : w.m ) { std::vector<double> t; meet( s, o, t ); for( double x : t ) if( atB( s.at( x ) ) > 1e-9 ) { if( circ ) other.push_back( s.at( x ) ); else ok = false; } }
        if( circ )
        {   // the other crossing is where it happens to be, but well away from anything else
            if( other.size() != ( len( b[0] - b[1] ) < 1e-9 ? 1 : 0 ) ) continue;
            for( auto& p : other ) { for( auto& s : w.m ) if( len( s.at( 0 ) - p ) < 0.01 ) ok = false; b[1] = p; if( len( p - c[0].at( 0 ) ) < 0.01 || len( p - b[0] ) < 0.05 ) ok = false; }
            if( len( b[0] - c[0].at( 0 ) ) < 0.01 ) ok = false;
            // not tangential
            for( auto& s : w.m ) for( auto& p : b )
            {
                if( off( s, p ) > 1e-9 ) continue;
                P2 n = p - c[0].c, t;
                if( s.arc ) { P2 m = p - s.c; t = { -m.y, m.x }; } else t = s.b - s.a;
                if( std::fabs( n.x * t.x + n.y * t.y ) < 0.1 * len( n ) * len( t ) ) ok = false;
            }
        }
        if( !ok || change != 2 ) continue;
        if( !circ && r.chance( 1, 2 ) ) c = reversed( c );
        pts = { b[0], b[1] };
        return true;
    }
    return false;
}

// a polygon with a side which lies on a straight side of the outline, and otherwise inside or
// outside of it; ref is what is left or gained if the polygon counts, empty if not
bool flush( Rng& r, const World& w, bool sub, Chain& c, Chain& ref )
{
    P2 lo, hi;
    bounds( w.m, lo, hi );
    double size = std::max( hi.x - lo.x, hi.y - lo.y );
    for( int k = 0; k < 60; ++k )
    {
        size_t at = r.below( w.m.size() );
        const Seg s = w.m[at];
        double L = s.length();
        if( s.arc || L < 0.5 ) continue;
        double t0 = r.real( 0, 0.8 ), t1 = t0 + r.real( 0.1, 0.95 - t0 );
        if( r.chance( 1, 3 ) ) { t0 = r.range( 1, 3 ) * 0.25; t1 = t0 + 0.25; }
        if( t0 * L < 0.02 || ( 1 - t1 ) * L < 0.02 || ( t1 - t0 ) * L < 0.05 ) continue;
        bool in = r.chance( 1, 2 );
        P2 a = s.at( t0 ), b = s.at( t1 ), d = ( b - a ) * ( 1 / len( b - a ) ), n = { -d.y, d.x };        // left of it is inside
        if( !in ) n = n * -1.0;
        double h = size * r.real( 0.03, 0.4 );
        bool square = r.chance( 1, 2 );
        std::vector<P2> v = { a };
        if( square || r.chance( 1, 2 ) ) v.push_back( a + n * h + d * ( square ? 0 : r.real( -0.2, 0.2 ) * h ) );
        if( v.size() < 2 || square || r.chance( 1, 2 ) ) v.push_back( b + n * h + d * ( square ? 0 : r.real( -0.2, 0.2 ) * h ) );
        v.push_back( b );
        Chain path;
        for( size_t i = 1; i < v.size(); ++i ) path.push_back( line( v[i - 1], v[i] ) );
        if( r.chance( 1, 4 ) ) path = { over( a, b, ( in ? -1 : 1 ) * r.real( 0.4, 3 ) ) };
        c = path;
        c.push_back( line( b, a ) );
        if( selfCross( c ) ) continue;
        bool ok = true;
        for( auto& x : path ) for( int i = 1; i < 64 && ok; ++i )
        {
            P2 p = x.at( i / 64.0 );
            double away = std::min( len( p - a ), len( p - b ) );
            if( insideLoop( w.m, p ) != in || off( w.m, p ) < std::min( 0.01, 0.05 * away ) ) ok = false;
        }
        for( size_t i = 0; i + 1 < path.size(); ++i ) if( off( w.m, path[i].at( 1 ) ) < 0.01 ) ok = false;
        for( auto& x : w.m ) if( x.length() < 0.02 || insideLoop( c, x.at( 0 ) ) || off( c, x.at( 0 ) ) < 0.01 ) ok = false;
        if( !ok ) continue;
        ref.clear();
        if( in == sub )
        {
            for( size_t i = 0; i < w.m.size(); ++i )
            {
                if( i != at ) { ref.push_back( w.m[i] ); continue; }
                ref.push_back( line( s.a, a ) );
                ref.insert( ref.end(), path.begin(), path.end() );
                ref.push_back( line( b, s.b ) );
            }
        }
        // begin anywhere, either way round
        std::rotate( c.begin(), c.begin() + r.below( c.size() ), c.end() );
        if( r.chance( 1, 2 ) ) c = reversed( c );
        return true;
    }
    return false;
}

void points( World& w, MCAD_OUTLINE& o, const Chain& m, uint64_t seed, int n )
{
    P2 lo, hi;
    bounds( m, lo, hi );
    Rng r( seed );
    std::vector<double> ys;
    for( auto& s : m ) { ys.push_back( s.at( 0 ).y ); if( s.arc ) { ys.push_back( s.c.y ); ys.push_back( s.c.y + s.r ); ys.push_back( s.c.y - s.r ); } }
    double d = std::max( hi.x - lo.x, hi.y - lo.y ) * 0.2;
    for( int i = 0; i < n; ++i )
    {
        P2 p = { r.real( lo.x - d, hi.x + d ), r.real( lo.y - d, hi.y + d ) };
        if( r.chance( 1, 2 ) ) p.y = ys[r.below( ys.size() )];
        if( r.chance( 1, 4 ) ) p = { std::round( p.x * 4 ) / 4, std::round( p.y * 4 ) / 4 };
        if( off( m, p ) < 1e-4 ) continue;
        bool err = false, tie = false;
        for( double y : ys ) if( std::fabs( y - p.y ) < 1e-6 ) tie = true;
        bool in = o.IsInside( mp( p ), err );
        REQUIRE( !err, "inside-error", "IsInside fails for " + str( p ) + " in" + str( m ) );
        REQUIRE( in == insideLoop( m, p ), tie ? "inside-level" : "inside", strf( "IsInside says %d for %s in", in, str( p ).c_str() ) + str( m ) );
    }
    trace( strf( "inside %d", n ) );
}

// a handle for the time of one request
struct Handles
{
    DLL_MCAD_OUTLINE o;
    explicit Handles( MCAD_OUTLINE& x ) : o( false ) { REQUIRE( o.Attach( &x ), "handle-refused", "attach" ); }
    ~Handles() noexcept( false ) { bool ok = o.IsValid(); o.Detach(); if( !std::uncaught_exceptions() ) REQUIRE( ok && !o.IsValid(), "handle-state", "the handle of the outline became invalid" ); }
};

void runG( const Script& s )
{
    World w;
    for( auto& op : s.ops )
    {
        step();
        ++g_stats.ops[op.name];
        Rng r( op.u64( "seed" ) );
        if( op.name == "base" )
        {
            w = World();
            Chain c;
            for( int k = 0; k < 40; ++k ) { c = shape( r, { r.real( -20, 20 ), r.real( -20, 20 ) }, r.real( 2, 30 ), r.chance( 1, 2 ) ); if( !c.empty() && !selfCross( c ) ) break; c.clear(); }
            if( c.empty() ) continue;
            Armed a( op );
            w.o = World::build( c );
            Chain want = ccw( c ) < 0 ? reversed( c ) : c;
            w.verify( *w.o, want, "an outline of these segments", op.u64( "seed" ) );
            w.m = seen( *w.o );
            trace( strf( "base %zu", w.m.size() ) );
            continue;
        }
        if( op.name == "pair" )
        {   // two segments: where do they meet, and are they divided there
            Seg g[2];
            for( auto& x : g )
            {
                P2 c = { r.real( -5, 5 ), r.real( -5, 5 ) };
                switch( r.below( 3 ) )
                {
                case 0: x = line( c, { r.real( -5, 5 ), r.real( -5, 5 ) } ); break;
                case 1: x = arc( c, r.real( 0.5, 6 ), r.real( -PI, PI ), r.real( 0.3, 6 ) * ( r.chance( 1, 2 ) ? 1 : -1 ) ); break;
                default: x = circle( c, r.real( 0.5, 6 ), true );
                }
                if( r.chance( 1, 3 ) && !isCircle( x ) )
                {   // on the grid, level
                    P2 a = { std::round( c.x ), std::round( c.y ) };
                    double q = r.range( 1, 6 );
                    if( !x.arc ) x = r.chance( 1, 2 ) ? line( a, { a.x + q, a.y } ) : line( a, { a.x, a.y - q } );
                    else x = arc( a, q, PI / 2 * r.range( -2, 2 ), PI / 2 * r.range( 1, 3 ) * ( r.chance( 1, 2 ) ? 1 : -1 ) );
                }
            }
            if( g[0].length() < 0.1 || g[1].length() < 0.1 ) continue;
            std::vector<P2> pts;
            if( !cross( g[0], g[1], pts ) ) continue;
            Armed a( op );
            std::unique_ptr<MCAD_SEGMENT> A( make( g[0] ) ), B( make( g[1] ) );
            std::string ctx = str( Chain{ g[0], g[1] } );
            for( int k = 0; k < 2; ++k )
            {
                MCAD_SEGMENT* m = k ? B.get() : A.get();
                angles( m, "SetParams" );
                double L = g[k].length();
                REQUIRE( std::fabs( m->GetLength() - L ) < 1e-6 * ( 1 + L ), "length", strf( "GetLength is %.9g instead of %.9g for", m->GetLength(), L ) + str( Chain{ g[k] } ) );
                MCAD_POINT b0, b1;
                P2 lo, hi; bounds( { g[k] }, lo, hi );
                REQUIRE( m->GetBoundingBox( b0, b1 ), "bounds", "no bounding box for" + str( Chain{ g[k] } ) );
                double tol = g[k].arc ? g[k].r * 0.005 + 1e-9 : 1e-9;
                REQUIRE( std::fabs( b0.x - lo.x ) < tol && std::fabs( b0.y - lo.y ) < tol && std::fabs( b1.x - hi.x ) < tol && std::fabs( b1.y - hi.y ) < tol, "bounds",
                         strf( "bounds %s..%s instead of %s..%s for", str( pm( b0 ) ).c_str(), str( pm( b1 ) ).c_str(), str( lo ).c_str(), str( hi ).c_str() ) + str( Chain{ g[k] } ) );
                MCAD_POINT mid;
                REQUIRE( m->GetMidpoint( mid ), "midpoint", "no midpoint for" + str( Chain{ g[k] } ) );
                P2 wantMid = isCircle( g[k] ) ? P2{ g[k].c.x + g[k].r, g[k].c.y } : g[k].at( 0.5 );
                REQUIRE( len( pm( mid ) - wantMid ) < 1e-6, "midpoint", "midpoint " + str( pm( mid ) ) + " instead of " + str( wantMid ) + " for" + str( Chain{ g[k] } ) );
            }
            for( int k = 0; k < 2; ++k )
            {
                std::list<MCAD_POINT> l;
                MCAD_INTERSECT_FLAG f = MCAD_IFLAG_NONE;
                bool ok = k ? B->GetIntersections( *A, l, f ) : A->GetIntersections( *B, l, f );
                std::string got; for( auto& p : l ) got += " " + str( pm( p ) );
                std::string want; for( auto& p : pts ) want += " " + str( p );
                REQUIRE( ok == !pts.empty() && l.size() == pts.size(), "intersections", strf( "GetIntersections(%d) gives%s (%d, flag %d) instead of%s for", k, got.c_str(), ok, (int) f, want.c_str() ) + ctx );
                for( auto& p : pts )
                {
                    bool hit = false; for( auto& q : l ) if( len( pm( q ) - p ) < 1e-6 ) hit = true;
                    REQUIRE( hit, "intersections", strf( "GetIntersections(%d) gives%s instead of%s for", k, got.c_str(), want.c_str() ) + ctx );
                }
            }
            for( int k = 0; k < 2; ++k )
            {
                std::list<MCAD_POINT> l;
                MCAD_INTERSECT_FLAG f = MCAD_IFLAG_NONE;
                MCAD_SEGMENT* m = k ? B.get() : A.get();
                if( !( k ? B->GetIntersections( *A, l, f ) : A->GetIntersections( *B, l, f ) ) ) break;
                if( isCircle( g[k] ) && l.size() != 2 ) continue;
                if( k == 1 ) { l.clear(); for( auto& p : pts ) l.push_back( mp( p ) ); if( r.chance( 1, 2 ) ) l.reverse(); }
                std::vector<P2> at; for( auto& p : l ) at.push_back( pm( p ) );
                std::list<MCAD_SEGMENT*> parts;
                {   // requests which make no sense leave the segment alone
                    auto wrong = [&]( std::vector<P2> at2, const char* why )
                    {
                        std::list<MCAD_POINT> q; for( auto& p : at2 ) q.push_back( mp( p ) );
                        std::list<MCAD_SEGMENT*> got;
                        ++g_stats.faults["bad-request-split"];
                        bool res = m->Split( q, got );
                        size_t n = got.size();
                        for( auto x : got ) delete x;
                        REQUIRE( !res && !n, "split-accepted", strf( "Split accepts %s (%d, %zu parts) for", why, res, n ) + str( Chain{ g[k] } ) );
                        REQUIRE( World::same( Chain{ g[k] }, Chain{ seen( m ) } ), "refused-but-changed", strf( "Split refused %s and changed", why ) + str( Chain{ g[k] } ) + " to" + str( Chain{ seen( m ) } ) );
                    };
                    P2 on = g[k].at( 0.37 ), on2 = g[k].at( 0.73 ), n = g[k].arc ? ( on - g[k].c ) * ( 1 / g[k].r ) : P2{ -( g[k].b - g[k].a ).y, ( g[k].b - g[k].a ).x } * ( 1 / g[k].length() );
                    P2 away = on + n * ( r.real( 0.01, 0.3 ) * ( r.chance( 1, 2 ) ? 1 : -1 ) );
                    switch( r.below( 6 ) )
                    {
                    case 0: wrong( {}, "no point" ); break;
                    case 1: wrong( { on, on2, g[k].at( 0.5 ) }, "three points" ); break;
                    case 2: wrong( { away, on2 }, "a point off the segment" ); break;
                    case 3: wrong( { on2, away }, "a point off the segment" ); break;
                    case 4: if( isCircle( g[k] ) ) wrong( { on, on }, "the same point twice" ); else wrong( { away }, "a point off the segment" ); break;
                    case 5:
                        if( isCircle( g[k] ) ) wrong( { on }, "one point" );
                        else if( !g[k].arc ) wrong( { g[k].a + ( g[k].b - g[k].a ) * ( r.chance( 1, 2 ) ? -0.2 : 1.1 ) }, "a point beyond the end" );
                        else if( std::fabs( g[k].sw ) < 5.5 ) wrong( { g[k].c + P2{ std::cos( g[k].a0 + g[k].sw / 2 + PI ), std::sin( g[k].a0 + g[k].sw / 2 + PI ) } * g[k].r }, "a point beyond the end" );
                        break;
                    }
                }
                REQUIRE( m->Split( l, parts ), "split", "Split refuses" + str( Chain{ g[k] } ) + " at " + str( at[0] ) + ( at.size() > 1 ? " and " + str( at[1] ) : "" ) );
                Chain pc = { seen( m ) };
                angles( m, "Split" );
                for( auto x : parts ) { pc.push_back( seen( x ) ); angles( x, "Split" ); }
                for( auto x : parts ) delete x;
                bool first = true;
                if( isCircle( g[k] ) ) for( auto& z : { pc[1] } ) first = z.sw > 0 && len( z.at( 0 ) - at[0] ) < 1e-6 && len( z.at( 1 ) - at[1] ) < 1e-6;
                std::string sp = str( Chain{ g[k] } ) + " split at " + str( at[0] ) + ( at.size() > 1 ? " and " + str( at[1] ) : "" ) + " is" + str( pc );
                REQUIRE( pc.size() == ( isCircle( g[k] ) ? 2 : at.size() + 1 ), "split", sp );
                REQUIRE( first, "split", "the new arc does not run from the first point to the second: " + sp );
                double L = 0; for( auto& x : pc ) L += x.length();
                REQUIRE( std::fabs( L - g[k].length() ) < 1e-5, "split", sp );
                for( auto& x : pc ) REQUIRE( x.arc == g[k].arc && ( !x.arc || ( len( x.c - g[k].c ) < 1e-9 && std::fabs( x.r - g[k].r ) < 1e-9 && ( isCircle( g[k] ) || ( x.sw > 0 ) == ( g[k].sw > 0 ) ) ) ), "split", sp );
                for( size_t i = isCircle( g[k] ) ? 0 : 1; i < pc.size(); ++i )
                {
                    P2 p = pc[i].at( 0 ), q = pc[( i + pc.size() - 1 ) % pc.size()].at( 1 );
                    double dd = 1e9; for( auto& z : at ) dd = std::min( dd, len( z - p ) );
                    REQUIRE( len( p - q ) < 1e-6 && dd < 1e-6, "split", sp );
                }
                if( !isCircle( g[k] ) ) REQUIRE( len( pc[0].at( 0 ) - g[k].at( 0 ) ) < 1e-9 && len( pc.back().at( 1 ) - g[k].at( 1 ) ) < 1e-9, "split", sp );
            }
            trace( strf( "pair %d%d %zu", g[0].arc, g[1].arc, pts.size() ) );
            if( !pts.empty() ) Nontrivial();
            continue;
        }
        if( op.name == "build" )
        {   // segments one by one, with requests in between that must be refused
            Chain c;
            for( int k = 0; k < 40; ++k ) { c = shape( r, { r.real( -20, 20 ), r.real( -20, 20 ) }, r.real( 2, 30 ), r.chance( 1, 2 ) ); if( !c.empty() && !selfCross( c ) ) break; c.clear(); }
            if( c.empty() ) continue;
            Armed a( op );
            MCAD_OUTLINE o;
            Chain so;
            auto refused = [&]( MCAD_SEGMENT* x, const char* why )
            {
                std::unique_ptr<MCAD_SEGMENT> keep( x );
                ++g_stats.faults["bad-request-segment"];
                Chain was = seen( o );
                bool cl = o.IsClosed(), err = false;
                bool ok = o.AddSegment( x, err );
                if( ok ) keep.release();
                REQUIRE( !ok && err, "accepted", std::string( "AddSegment accepts " ) + why + "; outline so far" + str( was ) );
                REQUIRE( World::same( was, seen( o ) ) && cl == o.IsClosed(), "refused-but-changed", std::string( "AddSegment refused " ) + why + " and changed" + str( was ) );
            };
            for( size_t i = 0; i < c.size(); ++i )
            {
                if( r.chance( 1, 3 ) )
                {
                    if( i )
                    {
                        P2 e = c[i - 1].at( 1 ) + P2{ r.real( 0.01, 1 ), r.real( 0.01, 1 ) };
                        refused( make( line( e, e + P2{ 1, 2 } ) ), "a segment which does not start where the last one ends" );
                        refused( make( circle( c[i - 1].at( 1 ), 1.5, true ) ), "a circle in an outline with segments" );
                    }
                    refused( new MCAD_SEGMENT, "a segment without parameters" );
                }
                std::unique_ptr<MCAD_SEGMENT> x( make( c[i] ) );
                bool err = true;
                REQUIRE( !o.IsClosed() && o.AddSegment( x.get(), err ) && !err, "segment-not-added", strf( "segment %zu of", i ) + str( c ) + " was not added" );
                x.release();
            }
            REQUIRE( o.IsClosed(), "not-closed", "not closed:" + str( c ) );
            refused( make( line( c.back().at( 1 ), c.back().at( 1 ) + P2{ 3, 1 } ) ), "a segment in a closed outline" );
            refused( make( circle( { 0, 0 }, 1, true ) ), "a circle in a closed outline" );
            w.verify( o, ccw( c ) < 0 ? reversed( c ) : c, "segments added one by one", op.u64( "seed" ) );
            // an open outline refuses to be combined
            if( c.size() > 1 )
            {
                MCAD_OUTLINE open;
                bool err = false;
                MCAD_SEGMENT* x = make( c[0] );
                REQUIRE( open.AddSegment( x, err ), "segment-not-added", "first segment of" + str( c ) );
                std::unique_ptr<MCAD_OUTLINE> other = World::build( c );
                bool ok[6];
                err = false; ok[0] = open.AddOutline( other.get(), err ) || !err;
                err = false; ok[1] = open.SubOutline( other.get(), err ) || !err;
                err = false; ok[2] = other->AddOutline( &open, err ) || !err;
                err = false; ok[3] = other->SubOutline( &open, err ) || !err;
                err = false; ok[4] = other->AddCutout( &open, true, err ) || !err;
                err = false; open.IsInside( mp( c[0].at( 0 ) ), err ); ok[5] = !err;
                for( int k = 0; k < 6; ++k ) REQUIRE( !ok[k], "open-accepted", strf( "request %d with an open outline is not refused", k ) );
                REQUIRE( World::same( { seen( x ) }, { c[0] } ) || !c[0].arc, "refused-but-changed", "an open outline changed" );
            }
            trace( strf( "build %zu", c.size() ) );
            Nontrivial();
            continue;
        }
        if( !w.o ) continue;
        if( op.name == "inside" )
        {
            Armed a( op );
            points( w, *w.o, w.m, op.u64( "seed" ), op.num( "n", 20 ) );
            continue;
        }
        // combine
        int want = op.num( "want", 2 );
        bool circ = op.num( "circle" ) != 0, cut = op.name == "cut", sub = op.name != "add";
        Chain c;
        std::vector<P2> pts;
        Chain flushed;
        if( want == 5 ) circ = false;
        if( want == 5 ? !flush( r, w, sub, c, flushed ) : want == 4 ? !cornered( r, w, circ, c, pts ) : !argument( r, w, want, circ, c, pts ) ) { trace( "no argument" ); continue; }
        // stay within what is allowed: the argument meets at most one of the cutouts, and no hole
        int which = -1, meets = 0;
        bool skip = false;
        std::vector<P2> cpts;
        Chain cc = ccw( c ) < 0 ? reversed( c ) : c;
        for( size_t i = 0; i < w.cuts.size() && !skip; ++i )
        {
            std::vector<P2> p;
            if( !crossings( w.cuts[i], c, p ) ) { skip = true; break; }
            if( !p.empty() ) { ++meets; which = i; cpts = p; }
            else if( insideLoop( w.cuts[i], c[0].at( 0 ) ) || insideLoop( c, w.cuts[i][0].at( 0 ) ) ) skip = true;
        }
        for( auto& h : w.holes ) { std::vector<P2> p; if( !crossings( { h }, c, p ) || !p.empty() || len( c[0].at( 0 ) - h.c ) < h.r || insideLoop( c, h.c ) ) skip = true; }
        if( skip || ( meets && ( !cut || !pts.empty() || meets > 1 || cpts.size() != 2 ) ) ) { trace( "overlap" ); continue; }
        std::string what = strf( "%s of %s with %zu crossings", op.name.c_str(), circ ? "circle" : "outline", pts.size() ) + "\n  argument" + str( c ) + "\n  outline" + str( w.m );
        Armed a( op );
        bool err = false, ok;
        std::unique_ptr<MCAD_OUTLINE> ao;
        std::unique_ptr<MCAD_SEGMENT> as;
        bool overlaps = op.num( "overlaps", 1 ) != 0;
        if( circ )
        {
            as.reset( make( c[0] ) );
            cc = { seen( as.get() ) };
            if( op.num( "handles" ) )
            {
                Handles h( *w.o );
                DLL_MCAD_SEGMENT x( false );
                REQUIRE( x.Attach( as.get() ), "handle-refused", what );
                ok = cut ? h.o.AddCutout( x, overlaps, err ) : sub ? h.o.SubOutline( x, err ) : h.o.AddOutline( x, err );
                REQUIRE( x.IsValid() == !ok && ( ok || x.GetRawPtr() == as.get() ), "handle-state", what + strf( ": result %d, handle of the argument is valid: %d", ok, x.IsValid() ) );
                if( !ok ) x.Detach();
            }
            else ok = cut ? w.o->AddCutout( as.get(), overlaps, err ) : sub ? w.o->SubOutline( as.get(), err ) : w.o->AddOutline( as.get(), err );
            if( ok ) as.release();
        }
        else
        {
            ao = World::build( c );
            cc = seen( *ao );
            if( op.num( "handles" ) )
            {
                Handles h( *w.o );
                DLL_MCAD_OUTLINE x( false );
                REQUIRE( x.Attach( ao.get() ), "handle-refused", what );
                ok = cut ? h.o.AddCutout( x, overlaps, err ) : sub ? h.o.SubOutline( x, err ) : h.o.AddOutline( x, err );
                REQUIRE( x.IsValid() == !ok && ( ok || x.GetRawPtr() == ao.get() ), "handle-state", what + strf( ": result %d, handle of the argument is valid: %d", ok, x.IsValid() ) );
                if( !ok ) x.Detach();
            }
            else ok = cut ? w.o->AddCutout( ao.get(), overlaps, err ) : sub ? w.o->SubOutline( ao.get(), err ) : w.o->AddOutline( ao.get(), err );
            if( ok ) ao.release();
        }
        trace( strf( "%s %d %zu %d %d", op.name.c_str(), circ, pts.size(), ok, err ) );
        REQUIRE( !( ok && err ), "both", what + ": success and an error" );
        ++g_stats.probes[strf( "%s-%s-%d", op.name.c_str(), circ ? "circle" : "outline", want )];
        if( cut && !overlaps )
        {
            REQUIRE( ok, "cutout-refused", what + ": refused although it was declared clear of everything" );
            if( circ ) w.holes.push_back( cc[0] ); else w.cuts.push_back( cc );
            w.unchanged( what );
            continue;
        }
        if( want == 5 )
        {   // either done or refused
            if( !ok ) { w.unchanged( what ); REQUIRE( World::same( seen( *ao ), cc ) && ao->IsClosed(), "argument-changed", what + ": refused and changed the argument" ); continue; }
            w.verify( *w.o, flushed.empty() ? w.m : flushed, what + ( flushed.empty() ? " which adds or takes nothing" : "" ), op.u64( "seed" ) );
            w.m = seen( *w.o );
            w.sides( what );
            ++g_stats.probes["flush-done"];
            Nontrivial();
            continue;
        }
        if( pts.size() == 2 )
        {
            std::string errs;
            for( auto& e : *w.o->GetErrors() ) errs += "\n  " + e;
            REQUIRE( ok, "refused", what + ": refused" + errs );
            Chain ref = combined( w.m, cc, sub );
            if( !closed( ref ) ) { ++g_stats.probes["reference-open"]; w.m = seen( *w.o ); continue; }
            w.verify( *w.o, ref, what, op.u64( "seed" ) );
            w.m = seen( *w.o );
            w.sides( what );
            Nontrivial();
            continue;
        }
        if( pts.size() > 2 || ( cut && ( want == -2 || want == -3 ) ) || !cut )
        {
            if( pts.size() > 2 ) REQUIRE( !ok && err, "accepted", what + strf( ": result %d, error %d", ok, err ) );
            if( !cut ) REQUIRE( !ok, "accepted", what + ": success without an intersection" );
            if( !ok )
            {
                ++g_stats.faults[pts.size() > 2 ? "bad-request-crossings" : "bad-request-apart"];
                w.unchanged( what );
                if( ao ) REQUIRE( World::same( seen( *ao ), cc ) && ao->IsClosed(), "argument-changed", what + ": refused and changed the argument to" + str( seen( *ao ) ) );
                if( as ) REQUIRE( World::same( { seen( as.get() ) }, cc ), "argument-changed", what + ": refused and changed the argument" );
                continue;
            }
        }
        // a cutout clear of the outline
        if( !ok ) { fail( "cutout-refused", what + ": refused" ); }
        if( meets )
        {
            REQUIRE( which >= 0 && (int) w.o->GetCutouts()->size() == (int) w.cuts.size(), "cutouts", what + ": the cutout met another one and was not merged with it" );
            auto it = w.o->GetCutouts()->begin();
            std::advance( it, which );
            w.verify( **it, combined( w.cuts[which], cc, false ), what + "\n  merged with" + str( w.cuts[which] ), op.u64( "seed" ) );
            w.cuts[which] = seen( **it );
            Nontrivial();
        }
        else if( circ ) w.holes.push_back( cc[0] );
        else w.cuts.push_back( cc );
        w.unchanged( what );
    }
}

void genG( uint64_t seed, bool thorough, Script& out )
{
    Rng r( seed );
    if( r.chance( 1, 6 ) )
    {
        int n = r.range( 3, thorough ? 12 : 8 );
        for( int i = 0; i < n; ++i ) out.ops.push_back( Op( r.chance( 1, 4 ) ? "build" : "pair" ).set( "seed", std::to_string( r.next() ) ) );
        return;
    }
    out.ops.push_back( Op( "base" ).set( "seed", std::to_string( r.next() ) ) );
    if( r.chance( 1, 2 ) ) out.ops.push_back( Op( "inside" ).set( "seed", std::to_string( r.next() ) ).set( "n", r.range( 5, 40 ) ) );
    int n = r.range( 1, thorough ? 12 : 7 );
    for( int i = 0; i < n; ++i )
    {
        static const char* nm[] = { "sub", "add", "cut" };
        static const int wants[] = { 2, 2, 2, 2, 4, -1, -1, -2, -3, 3, 5 };
        Op op( nm[r.below( 3 )] );
        int want = wants[r.below( 11 )];
        op.set( "seed", std::to_string( r.next() ) ).set( "want", want ).set( "circle", r.chance( 2, 5 ) ).set( "handles", r.chance( 1, 4 ) );
        if( op.name == "cut" ) { if( r.chance( 1, 2 ) ) op.set( "want", -1 ), want = -1; if( want == -1 && r.chance( 1, 4 ) ) op.set( "overlaps", 0L ); }
        out.ops.push_back( op );
        if( r.chance( 1, 3 ) ) out.ops.push_back( Op( "inside" ).set( "seed", std::to_string( r.next() ) ).set( "n", r.range( 5, 40 ) ) );
    }
}
RegScenario rG( { "G01", genG, runG, "an outline was changed by an accepted operation, or segments met and were divided" } );
}
