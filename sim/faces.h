// Solids in a written file: what faces, walls and boundaries must be for the outline
// they were made from, read back with the reference parser; and a generator of outlines.
#ifndef FACES_H
#define FACES_H
#include "scen.h"
#include "plane.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>

namespace
{
struct P3 { double x = 0, y = 0, z = 0; };
double dist( P3 a, P3 b ) { return std::sqrt( ( a.x - b.x ) * ( a.x - b.x ) + ( a.y - b.y ) * ( a.y - b.y ) + ( a.z - b.z ) * ( a.z - b.z ) ); }

struct IPt { P2 p; double ang = 0; };           // ang: included angle of the arc which ends here
typedef std::vector<IPt> Loop;                  // a circle is centre, point, 360

double q( double v, int dec ) { double f = std::pow( 10.0, dec ); return std::round( v * f ) / f; }

// ---- plane geometry of what is asked for -----------------------------------
std::vector<Seg> segs( const Loop& l, double f )
{
    std::vector<Seg> v;
    for( size_t i = 1; i < l.size(); ++i )
    {
        P2 a = l[i - 1].p * f, b = l[i].p * f;
        double w = l[i].ang * PI / 180;
        if( std::fabs( std::fabs( l[i].ang ) - 360 ) < 1e-9 ) { v.push_back( circle( a, len( b - a ), w > 0 ) ); continue; }
        Seg s;
        s.a = a; s.b = b;
        if( l[i].ang != 0 )
        {
            s.arc = true;
            P2 m = ( a + b ) * 0.5, d = b - a;
            double h = 0.5 / std::tan( w / 2 );         // centre to the left of a->b for counterclockwise arcs
            s.c = { m.x - d.y * h, m.y + d.x * h };
            s.r = len( a - s.c );
            s.a0 = std::atan2( a.y - s.c.y, a.x - s.c.x );
            s.sw = w;
        }
        v.push_back( s );
    }
    return v;
}

// the boundary of (outer - holes): pieces, oriented with the region on the left
struct Region { std::vector<Seg> pieces; Integrals in; int loops = 0; };
Region regionOf( const std::vector<Seg>& outer, const std::vector<std::vector<Seg>>& holesIn )
{
    Region R;
    std::vector<std::vector<Seg>> holes;
    for( auto& h : holesIn )
    {   // identical circles count once
        bool dup = false;
        if( h.size() == 1 ) for( auto& k : holes ) if( k.size() == 1 && len( k[0].c - h[0].c ) < 1e-9 && std::fabs( k[0].r - h[0].r ) < 1e-9 ) dup = true;
        if( !dup ) holes.push_back( h );
    }
    std::vector<const std::vector<Seg>*> all = { &outer };
    for( auto& h : holes ) all.push_back( &h );
    for( size_t i = 0; i < all.size(); ++i )
        for( auto& s : *all[i] )
        {
            std::vector<double> t = { 0, 1 };
            for( size_t j = 0; j < all.size(); ++j ) if( j != i ) for( auto& o : *all[j] ) meet( s, o, t );
            std::sort( t.begin(), t.end() );
            for( size_t k = 1; k < t.size(); ++k )
            {
                if( ( t[k] - t[k - 1] ) * s.length() < 1e-9 ) continue;
                P2 m = s.at( 0.5 * ( t[k] + t[k - 1] ) );
                bool keep = i == 0 || insideLoop( outer, m );
                for( size_t j = 1; keep && j < all.size(); ++j ) if( j != i && insideLoop( *all[j], m ) ) keep = false;
                if( keep ) R.pieces.push_back( part( s, t[k - 1], t[k] ) );
            }
        }
    for( auto& s : R.pieces ) addSeg( s, R.in );
    // number of closed chains
    std::vector<int> root( R.pieces.size() );
    for( size_t i = 0; i < root.size(); ++i ) root[i] = i;
    std::function<int( int )> find = [&]( int i ) { return root[i] == i ? i : root[i] = find( root[i] ); };
    for( size_t i = 0; i < root.size(); ++i )
        for( size_t j = 0; j < i; ++j )
        {
            P2 e[2] = { R.pieces[i].at( 0 ), R.pieces[i].at( 1 ) }, f[2] = { R.pieces[j].at( 0 ), R.pieces[j].at( 1 ) };
            for( auto& a : e ) for( auto& b : f ) if( len( a - b ) < 1e-6 ) root[find( i )] = find( j );
        }
    std::set<int> n;
    for( size_t i = 0; i < root.size(); ++i ) n.insert( find( i ) );
    R.loops = n.size();
    return R;
}

struct Fig
{
    Region r;
    double z0, z1;
    int planes[2] = { 1, 1 };       // faces expected at z0 and z1
    bool walls = true;
    bool facing = true;             // walls face away from the region
    int up[2] = { 0, 0 };           // which way the planes face, if it matters
};

// ---- reading the assembly ---------------------------------------------------
struct Reader
{
    const DocM& d;
    std::string where;
    double tol = 2e-5;
    explicit Reader( const DocM& dd ) : d( dd ) {}
    [[noreturn]] void bad( const char* sig, const std::string& t ) const { fail( sig, where + ": " + t ); }
    const EntM& ent( long i, int type = 0 ) const
    {
        if( i < 0 || i >= (long) d.ents.size() ) bad( "structure", "missing entity" );
        if( type && d.ents[i].type != type ) bad( "structure", strf( "entity of type %d where %d belongs", d.ents[i].type, type ) );
        return d.ents[i];
    }
    static double r( const Val& v ) { return v.k == 'i' ? (double) v.i : v.r; }
    double R( const EntM& e, size_t i ) const { if( i >= e.p.size() ) bad( "structure", strf( "type %d with %zu parameters", e.type, e.p.size() ) ); return e.p[i].k == 'd' ? 0 : r( e.p[i] ); }
    long L( const EntM& e, size_t i ) const { if( i >= e.p.size() ) bad( "structure", strf( "type %d with %zu parameters", e.type, e.p.size() ) ); return e.p[i].k == 'd' ? 0 : e.p[i].k == 'r' ? (long) e.p[i].r : e.p[i].i; }
    P3 xform( long x, P3 p ) const
    {
        if( x < 0 ) return p;
        const EntM& t = ent( x, 124 );
        P3 o = { R( t, 0 ) * p.x + R( t, 1 ) * p.y + R( t, 2 ) * p.z + R( t, 3 ), R( t, 4 ) * p.x + R( t, 5 ) * p.y + R( t, 6 ) * p.z + R( t, 7 ), R( t, 8 ) * p.x + R( t, 9 ) * p.y + R( t, 10 ) * p.z + R( t, 11 ) };
        return xform( t.xform, o );
    }
    void flat( long i, std::vector<long>& out ) const
    {
        const EntM& e = ent( i );
        if( e.type != 102 ) { out.push_back( i ); return; }
        long n = L( e, 0 );
        for( long k = 1; k <= n; ++k ) { if( (size_t) k >= e.p.size() ) bad( "structure", "short composite" ); flat( e.p[k].i, out ); }
    }
    static double basis( const std::vector<double>& k, int deg, int n, double t, std::vector<double>& N )
    {
        int m = n + deg;        // number of control points n+1
        (void) m;
        int s = deg;
        while( s < n && t >= k[s + 1] ) ++s;
        N.assign( n + 1, 0 );
        std::vector<double> b( deg + 1, 0 ), l( deg + 1 ), r( deg + 1 );
        b[0] = 1;
        for( int j = 1; j <= deg; ++j )
        {
            l[j] = t - k[s + 1 - j]; r[j] = k[s + j] - t;
            double sv = 0;
            for( int i = 0; i < j; ++i ) { double w = b[i] / ( r[i + 1] + l[j - i] ); b[i] = sv + r[i + 1] * w; sv = l[j - i] * w; }
            b[j] = sv;
        }
        for( int j = 0; j <= deg; ++j ) N[s - deg + j] = b[j];
        return s;
    }
    // point of a curve at t in [0,1]
    P3 at( long i, double t ) const
    {
        const EntM& e = ent( i );
        P3 p;
        if( e.type == 110 )
            p = { R( e, 0 ) + t * ( R( e, 3 ) - R( e, 0 ) ), R( e, 1 ) + t * ( R( e, 4 ) - R( e, 1 ) ), R( e, 2 ) + t * ( R( e, 5 ) - R( e, 2 ) ) };
        else if( e.type == 100 )
        {
            double cx = R( e, 1 ), cy = R( e, 2 ), ax = R( e, 3 ) - cx, ay = R( e, 4 ) - cy, bx = R( e, 5 ) - cx, by = R( e, 6 ) - cy;
            double a0 = std::atan2( ay, ax ), a1 = std::atan2( by, bx ), rad = std::hypot( ax, ay );
            if( std::fabs( rad - std::hypot( bx, by ) ) > tol ) bad( "geometry", "an arc whose end points have different radii" );
            while( a1 <= a0 + 1e-9 ) a1 += 2 * PI;
            double w = a0 + t * ( a1 - a0 );
            p = { cx + rad * std::cos( w ), cy + rad * std::sin( w ), R( e, 0 ) };
        }
        else if( e.type == 126 )
        {
            int n = L( e, 0 ), deg = L( e, 1 );
            if( n < deg || deg < 1 || e.p.size() < (size_t)( 6 + n + deg + 2 + 4 * ( n + 1 ) + 2 ) ) bad( "structure", "a B-spline curve with inconsistent sizes" );
            std::vector<double> k, N;
            size_t o = 6;
            for( int j = 0; j < n + deg + 2; ++j ) k.push_back( R( e, o++ ) );
            size_t w = o; o += n + 1;
            size_t c = o; o += 3 * ( n + 1 );
            double v0 = R( e, o ), v1 = R( e, o + 1 ), u = v0 + t * ( v1 - v0 );
            basis( k, deg, n, u, N );
            double W = 0;
            for( int j = 0; j <= n; ++j )
            {
                double q = N[j] * R( e, w + j );
                W += q; p.x += q * R( e, c + 3 * j ); p.y += q * R( e, c + 3 * j + 1 ); p.z += q * R( e, c + 3 * j + 2 );
            }
            p.x /= W; p.y /= W; p.z /= W;
        }
        else bad( "structure", strf( "type %d used as a curve", e.type ) );
        return xform( e.xform, p );
    }
    P3 surf( long i, double u, double v ) const
    {
        const EntM& e = ent( i );
        P3 p;
        if( e.type == 120 )
        {
            P3 a0 = at( L( e, 0 ), 0 ), a1 = at( L( e, 0 ), 1 ), g = at( L( e, 1 ), u );
            double n = dist( a0, a1 );
            P3 w = { ( a1.x - a0.x ) / n, ( a1.y - a0.y ) / n, ( a1.z - a0.z ) / n }, k = { g.x - a0.x, g.y - a0.y, g.z - a0.z };
            double c = std::cos( v ), s = std::sin( v ), dt = w.x * k.x + w.y * k.y + w.z * k.z;
            P3 x = { w.y * k.z - w.z * k.y, w.z * k.x - w.x * k.z, w.x * k.y - w.y * k.x };
            p = { a0.x + k.x * c + x.x * s + w.x * dt * ( 1 - c ), a0.y + k.y * c + x.y * s + w.y * dt * ( 1 - c ), a0.z + k.z * c + x.z * s + w.z * dt * ( 1 - c ) };
        }
        else if( e.type == 128 )
        {
            int n1 = L( e, 0 ), n2 = L( e, 1 ), m1 = L( e, 2 ), m2 = L( e, 3 );
            std::vector<double> s, t, A, B;
            size_t o = 9;
            for( int j = 0; j < n1 + m1 + 2; ++j ) s.push_back( R( e, o++ ) );
            for( int j = 0; j < n2 + m2 + 2; ++j ) t.push_back( R( e, o++ ) );
            basis( s, m1, n1, u, A );
            basis( t, m2, n2, v, B );
            size_t w = o, c = o + ( n1 + 1 ) * ( n2 + 1 );
            double W = 0;
            for( int j = 0; j <= n2; ++j )
                for( int k = 0; k <= n1; ++k )
                {
                    size_t x = j * ( n1 + 1 ) + k;
                    double q = A[k] * B[j] * R( e, w + x );
                    W += q; p.x += q * R( e, c + 3 * x ); p.y += q * R( e, c + 3 * x + 1 ); p.z += q * R( e, c + 3 * x + 2 );
                }
            p.x /= W; p.y /= W; p.z /= W;
        }
        else bad( "structure", strf( "type %d used as a surface", e.type ) );
        return xform( e.xform, p );
    }
    // the point in the middle of the boundary of a face in parameter space, and which way the face looks there
    P3 facing( const EntM& f144, P3* where = nullptr ) const
    {
        long s = L( f144, 0 );
        std::vector<long> B;
        flat( L( ent( L( f144, 3 ), 142 ), 2 ), B );
        double u0 = 1e9, u1 = -1e9, v0 = 1e9, v1 = -1e9;
        for( long b : B ) for( double t : { 0.0, 0.25, 0.5, 0.75 } ) { P3 q = at( b, t ); u0 = std::min( u0, q.x ); u1 = std::max( u1, q.x ); v0 = std::min( v0, q.y ); v1 = std::max( v1, q.y ); }
        double u = 0.5 * ( u0 + u1 ), v = 0.5 * ( v0 + v1 ), hu = 0.01 * ( u1 - u0 ), hv = 0.01 * ( v1 - v0 );
        P3 a = surf( s, u + hu, v ), b = surf( s, u - hu, v ), c = surf( s, u, v + hv ), d = surf( s, u, v - hv );
        P3 x = { a.x - b.x, a.y - b.y, a.z - b.z }, y = { c.x - d.x, c.y - d.y, c.z - d.z };
        P3 n = { x.y * y.z - x.z * y.y, x.z * y.x - x.x * y.z, x.x * y.y - x.y * y.x };
        double l = std::sqrt( n.x * n.x + n.y * n.y + n.z * n.z );
        if( !( l > 0 ) ) bad( "structure", "a degenerate surface" );
        if( where ) *where = surf( s, u, v );
        return { n.x / l, n.y / l, n.z / l };
    }
    // the model space curves of one boundary; checks closure and agreement with the surface
    std::vector<long> boundary( long i142, long surface ) const
    {
        const EntM& e = ent( i142, 142 );
        if( L( e, 1 ) != surface ) bad( "structure", "a boundary curve refers to another surface" );
        std::vector<long> B, C;
        flat( L( e, 2 ), B );
        flat( L( e, 3 ), C );
        if( C.empty() || B.empty() ) bad( "structure", "an empty boundary" );
        for( size_t k = 0; k < C.size(); ++k )
        {
            P3 a = at( C[k], 1 ), b = at( C[( k + 1 ) % C.size()], 0 );
            if( dist( a, b ) > tol ) bad( "boundary-open", strf( "curve %zu of %zu ends at (%.9g,%.9g,%.9g), the next starts at (%.9g,%.9g,%.9g)", k, C.size(), a.x, a.y, a.z, b.x, b.y, b.z ) );
        }
        for( size_t k = 0; k < B.size(); ++k )
        {
            P3 a = at( B[k], 1 ), b = at( B[( k + 1 ) % B.size()], 0 );
            if( std::hypot( a.x - b.x, a.y - b.y ) > 1e-5 ) bad( "parameter-boundary-open", strf( "curve %zu of %zu ends at (%.9g,%.9g), the next starts at (%.9g,%.9g)", k, B.size(), a.x, a.y, b.x, b.y ) );
        }
        if( B.size() != C.size() ) bad( "structure", "the two forms of a boundary have different numbers of pieces" );
        for( size_t k = 0; k < C.size(); ++k )
            for( double t : { 0.0, 0.25, 0.5, 0.8, 1.0 } )
            {
                P3 uv = at( B[k], t ), p = surf( surface, uv.x, uv.y );
                double best = 1e9;
                const EntM& c = ent( C[k] );
                P3 s0 = at( C[k], 0 ), s1 = at( C[k], 1 );
                if( t == 0.0 ) best = dist( p, s0 );
                else if( t == 1.0 ) best = dist( p, s1 );
                else if( c.type == 110 )
                {
                    double l = dist( s0, s1 ), x = ( ( p.x - s0.x ) * ( s1.x - s0.x ) + ( p.y - s0.y ) * ( s1.y - s0.y ) + ( p.z - s0.z ) * ( s1.z - s0.z ) ) / ( l * l );
                    best = dist( p, P3{ s0.x + x * ( s1.x - s0.x ), s0.y + x * ( s1.y - s0.y ), s0.z + x * ( s1.z - s0.z ) } );
                    if( x < -1e-6 || x > 1 + 1e-6 ) best = 1e9;
                }
                else
                {
                    for( int n = 0; n <= 64; ++n ) best = std::min( best, dist( p, at( C[k], n / 64.0 ) ) );
                    double st = 1.0 / 64;
                    double bt = 0, bd = 1e9;
                    for( int n = 0; n <= 64; ++n ) { double v = dist( p, at( C[k], n / 64.0 ) ); if( v < bd ) { bd = v; bt = n / 64.0; } }
                    for( int it = 0; it < 40; ++it )
                    {
                        for( double x : { bt - st, bt + st } ) if( x >= 0 && x <= 1 ) { double v = dist( p, at( C[k], x ) ); if( v < bd ) { bd = v; bt = x; } }
                        st *= 0.6;
                    }
                    best = bd;
                }
                if( best > 10 * tol ) bad( "boundary-off-surface", strf( "piece %zu at %g: the surface point (%.9g,%.9g,%.9g) is %.3g away from the model space curve", k, t, p.x, p.y, p.z, best ) );
            }
        return C;
    }
};

void near( const Reader& rd, const char* sig, const char* what, double want, double got, double scale )
{
    if( !( std::fabs( want - got ) <= 1e-5 * ( 1 + scale ) ) ) rd.bad( sig, strf( "%s is %.9g, expected %.9g", what, got, want ) );
}
void compare( const Reader& rd, const char* sig, const Integrals& w, const Integrals& g, double ext, bool areas )
{
    double L = w.l;
    near( rd, sig, "length of the outline", w.l, g.l, L );
    near( rd, sig, "position of the outline (x)", w.lx, g.lx, L * ext );
    near( rd, sig, "position of the outline (y)", w.ly, g.ly, L * ext );
    near( rd, sig, "shape of the outline (xx)", w.lxx, g.lxx, L * ext * ext );
    near( rd, sig, "shape of the outline (yy)", w.lyy, g.lyy, L * ext * ext );
    near( rd, sig, "shape of the outline (xy)", w.lxy, g.lxy, L * ext * ext );
    if( !areas ) return;
    near( rd, sig, "area", w.area, g.area, ext * ext );
    near( rd, sig, "centre of area (x)", w.mx, g.mx, ext * ext * ext );
    near( rd, sig, "centre of area (y)", w.my, g.my, ext * ext * ext );
}

// the faces of one solid, or some of them
void checkFaces( const Reader& rd, const std::vector<long>& faces, const Fig& want )
{
    const Region& R = want.r;
    double ext = 1;
    for( auto& s : R.pieces ) { P2 p = s.at( 0 ), m = s.at( 0.5 ); ext = std::max( { ext, std::fabs( p.x ), std::fabs( p.y ), std::fabs( m.x ), std::fabs( m.y ) } ); }
    int planes[2] = { 0, 0 };
    Integrals wall[2];
    std::vector<P3> verticals;          // bottom point of each vertical edge
    const double z[2] = { want.z0, want.z1 };
    auto level = [&]( double v ) { return std::fabs( v - z[0] ) < rd.tol ? 0 : std::fabs( v - z[1] ) < rd.tol ? 1 : -1; };
    for( long face : faces )
    {
        const EntM& f = rd.ent( face, 144 );
        long s = rd.L( f, 0 );
        long n1 = rd.L( f, 1 ), n2 = rd.L( f, 2 );
        if( n1 != 1 ) rd.bad( "structure", "a face without an outer boundary" );
        std::vector<std::vector<long>> loops;
        for( long k = 0; k <= n2; ++k ) loops.push_back( rd.boundary( rd.L( f, 3 + k ), s ) );
        // horizontal or upright?
        bool flat = true;
        for( auto& l : loops ) for( long c : l ) for( double t : { 0.0, 0.5 } ) if( std::fabs( rd.at( c, t ).z - rd.at( loops[0][0], 0 ).z ) > rd.tol ) flat = false;
        if( flat )
        {
            int lv = level( rd.at( loops[0][0], 0 ).z );
            if( lv < 0 ) rd.bad( "wrong-height", strf( "a face lies at z=%.9g; faces belong at %.9g and %.9g", rd.at( loops[0][0], 0 ).z, z[0], z[1] ) );
            ++planes[lv];
            if( want.up[lv] )
            {
                P3 nv = rd.facing( f );
                if( nv.z * want.up[lv] < 0.999 ) rd.bad( "facing", strf( "the plane at z=%.9g faces (%.3g,%.3g,%.3g)", z[lv], nv.x, nv.y, nv.z ) );
            }
            Integrals in;
            for( size_t k = 0; k < loops.size(); ++k )
            {
                Integrals one;
                for( long c : loops[k] ) integrate( [&]( double t ) { P3 p = rd.at( c, t ); return P2{ p.x, p.y }; }, rd.ent( c ).type == 110 ? 1 : 16, one, 1 );
                double sg = ( one.area < 0 ? -1 : 1 ) * ( k ? -1 : 1 );
                in.area += sg * one.area; in.mx += sg * one.mx; in.my += sg * one.my;
                in.l += one.l; in.lx += one.lx; in.ly += one.ly; in.lxx += one.lxx; in.lyy += one.lyy; in.lxy += one.lxy;
            }
            compare( rd, "wrong-face", R.in, in, ext, true );
            if( (int) loops.size() != R.loops ) rd.bad( "wrong-face", strf( "the face has %zu boundaries, the outline has %d", loops.size(), R.loops ) );
        }
        else
        {
            if( loops.size() != 1 ) rd.bad( "structure", "a wall with holes" );
            if( want.facing )
            {
                P3 p, nv = rd.facing( f, &p );
                if( std::fabs( nv.z ) > 1e-3 ) rd.bad( "facing", "a wall which is not upright" );
                const double e = 1e-4;
                bool in = insideLoop( R.pieces, { p.x - e * nv.x, p.y - e * nv.y } ), out = insideLoop( R.pieces, { p.x + e * nv.x, p.y + e * nv.y } );
                if( !in && out ) rd.bad( "facing", strf( "the wall at (%.9g,%.9g) faces the material", p.x, p.y ) );
            }
            for( long c : loops[0] )
            {
                P3 a = rd.at( c, 0 ), m = rd.at( c, 0.5 ), b = rd.at( c, 1 );
                int la = level( a.z ), lm = level( m.z ), lb = level( b.z );
                if( la >= 0 && la == lb && lm == la ) integrate( [&]( double t ) { P3 p = rd.at( c, t ); return P2{ p.x, p.y }; }, rd.ent( c ).type == 110 ? 1 : 16, wall[la], 1 );
                else if( la >= 0 && lb >= 0 && la != lb && std::hypot( a.x - b.x, a.y - b.y ) < rd.tol && std::hypot( a.x - m.x, a.y - m.y ) < rd.tol ) verticals.push_back( P3{ a.x, a.y, 0 } );
                else rd.bad( "wrong-wall", strf( "an edge of a wall runs from (%.9g,%.9g,%.9g) to (%.9g,%.9g,%.9g)", a.x, a.y, a.z, b.x, b.y, b.z ) );
            }
        }
    }
    if( planes[0] != want.planes[0] || planes[1] != want.planes[1] ) rd.bad( "wrong-face", strf( "%d faces at the lower and %d at the upper level", planes[0], planes[1] ) );
    if( !want.walls )
    {
        if( !verticals.empty() || wall[0].l > 0 || wall[1].l > 0 ) rd.bad( "wrong-wall", "a wall where none was asked for" );
        return;
    }
    compare( rd, "wrong-wall", R.in, wall[0], ext, false );
    compare( rd, "wrong-wall", R.in, wall[1], ext, false );
    // every upright edge joins exactly two walls (a sliver of a wall, shorter than what can
    // be told apart, brings the upright edges of two joints to the same place)
    std::vector<char> used( verticals.size(), 0 );
    for( size_t i = 0; i < verticals.size(); ++i )
    {
        if( used[i] ) continue;
        int mates = 0;
        for( size_t j = i + 1; j < verticals.size(); ++j ) if( !used[j] && dist( verticals[i], verticals[j] ) < 0.1 * rd.tol ) { used[j] = 1; ++mates; }
        if( mates % 2 != 1 ) rd.bad( "wall-gap", strf( "%d walls meet at (%.9g,%.9g)", mates + 1, verticals[i].x, verticals[i].y ) );
    }
}

void checkFigure( const Reader& rd, const EntM& fig, const Fig& want )
{
    std::vector<long> f;
    for( long i = 0; i < rd.L( fig, 2 ); ++i ) f.push_back( rd.L( fig, 3 + i ) );
    checkFaces( rd, f, want );
}

// ---- generator of outlines ----------------------------------------------------
struct Gen
{
    Rng r;
    int dec;
    double f;           // file units per mm
    explicit Gen( uint64_t s ) : r( s ) {}
    P2 Q( P2 p ) const { return { q( p.x * f, dec ), q( p.y * f, dec ) }; }
    double A( double a ) { return q( a, r.chance( 1, 2 ) ? 0 : 3 ); }
    void rotate( Loop& l )
    {   // another starting point
        if( l.size() < 3 || l[1].ang >= 360 || l[1].ang <= -360 ) return;
        size_t n = l.size() - 1, k = r.below( n );
        Loop o;
        for( size_t i = 0; i <= n; ++i ) { size_t j = ( k + i ) % n; IPt p = l[j == 0 && i ? n : j]; if( !i ) p.ang = 0; o.push_back( p ); }
        // the starting point loses its arc, which now closes the loop
        o.back().ang = k == 0 ? l[n].ang : l[k].ang;
        l = o;
    }
    static void reverse( Loop& l )
    {
        Loop o;
        if( l.size() == 2 ) { l[1].ang = -l[1].ang; return; }
        for( size_t i = l.size(); i-- > 0; ) { IPt p = l[i]; p.ang = i + 1 < l.size() ? -l[i + 1].ang : 0; o.push_back( p ); }
        l = o;
    }
    Loop ring( const std::vector<IPt>& v )
    {   // v[i].ang is the angle of the arc from v[i-1] to v[i]; v[0].ang closes the loop
        Loop l;
        for( auto& p : v ) l.push_back( { Q( p.p ), p.ang } );
        IPt e = l[0];
        l[0].ang = 0;
        l.push_back( e );
        return l;
    }
    // counterclockwise shape which fits the disk of radius R about c (mm)
    Loop shape( P2 c, double R, int kind )
    {
        double w = r.chance( 1, 3 ) ? 0 : r.real( 0, 2 * PI );
        if( dec >= 9 && r.chance( 1, 2 ) ) w = std::pow( 10, -r.real( 4, 9 ) ) * ( r.chance( 1, 2 ) ? 1 : -1 ) + r.below( 4 ) * PI / 2;     // ends of arcs almost on an axis
        auto at = [&]( double x, double y ) { return P2{ c.x + x * std::cos( w ) - y * std::sin( w ), c.y + x * std::sin( w ) + y * std::cos( w ) }; };
        auto bulge = [&]( double ang, double chord ) { (void) chord; return q( ang, 2 ); };
        (void) bulge;
        Loop l;
        switch( kind )
        {
            case 0: { double a = R * r.real( 0.5, 0.7 ), b = R * r.real( 0.3, 0.7 ); l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 0 }, { at( -a, b ), 0 } } ); break; }
            case 1: { double s = R * r.real( 0.5, 1.0 ); P2 p = Q( c ), e = Q( { c.x + s * std::cos( w ), c.y + s * std::sin( w ) } ); return { { p, 0 }, { e, 360 } }; }
            case 2: { double a = R * r.real( 0.3, 0.6 ), b = R * r.real( 0.2, 0.35 ); l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 180 }, { at( -a, b ), 0 } } ); l.back().ang = 180; break; }
            case 3:
            {
                int n = 3 + r.below( 7 );
                std::vector<IPt> v;
                for( int i = 0; i < n; ++i ) { double t = 2 * PI * ( i + r.real( -0.2, 0.2 ) ) / n, s = R * r.real( 0.6, 0.95 ); v.push_back( { { c.x + s * std::cos( t ), c.y + s * std::sin( t ) }, 0 } ); }
                l = ring( v );
                break;
            }
            case 4: { double a = R * r.real( 0.4, 0.8 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 0 } } ); l.back().ang = A( r.real( 90, 180 ) ); break; }      // D shape
            case 5: { double a = R * r.real( 0.4, 0.8 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 0 } } ); l[1].ang = A( r.real( 40, 200 ) ); l.back().ang = A( r.real( 40, 150 ) ); if( l[1].ang + l.back().ang > 330 ) l[1].ang = 100; break; }      // lens
            case 6: { double a = R * r.real( 0.4, 0.9 ); l = ring( { { at( -a, 0 ), 0 }, { at( a, 0 ), 180 } } ); l.back().ang = 180; break; }     // circle of two arcs
            case 7:
            {   // bulged sides, outwards and inwards
                double a = R * 0.55, b = R * 0.55;
                l = ring( { { at( -a, -b ), 0 }, { at( a, -b ), 0 }, { at( a, b ), 0 }, { at( -a, b ), 0 } } );
                for( size_t i = 1; i < l.size(); ++i ) if( r.chance( 2, 3 ) ) l[i].ang = A( r.chance( 1, 2 ) ? r.real( 5, 85 ) : -r.real( 5, 60 ) );
                break;
            }
            case 8:
            {   // three quarters of a disk
                double a = R * r.real( 0.4, 0.8 );
                l = ring( { { at( 0, 0 ), 0 }, { at( a, 0 ), 0 }, { at( 0, -a ), 270 } } );
                break;
            }
            case 10:
            {   // disk with a slot, which may reach beyond its middle
                double a = 0.9 * R, h = a * r.real( 0.08, 0.25 ), x = std::sqrt( a * a - h * h ), d = r.chance( 2, 3 ) ? -a * r.real( 0.3, 0.8 ) : a * r.real( -0.3, 0.6 );
                l = ring( { { at( x, h ), 0 }, { at( x, -h ), A( 360 - 2 * std::asin( h / a ) * 180 / PI ) }, { at( d, -h ), 0 }, { at( d, h ), 0 } } );
                break;
            }
            case 11:
            {   // part of a ring
                double a = 0.85 * R, b2 = a * r.real( 0.4, 0.75 ), th = A( r.real( 60, 330 ) ), t = th * PI / 180;
                l = ring( { { at( a, 0 ), 0 }, { at( a * std::cos( t ), a * std::sin( t ) ), th }, { at( b2 * std::cos( t ), b2 * std::sin( t ) ), 0 }, { at( b2, 0 ), -th } } );
                break;
            }
            case 12:
            {   // polygon with arcs for sides, also of more than half a circle
                int n = 3 + r.below( 4 );
                std::vector<IPt> v;
                for( int i = 0; i < n; ++i ) v.push_back( { at( 0.4 * R * std::cos( 2 * PI * i / n ), 0.4 * R * std::sin( 2 * PI * i / n ) ), r.chance( 1, 4 ) ? 0 : A( r.real( 60, 180 + 0.6 * 360 / n ) ) } );
                l = ring( v );
                break;
            }
            default:
            {   // rounded rectangle
                double a = R * 0.65, b = R * r.real( 0.35, 0.65 ), k = R * r.real( 0.05, 0.25 );
                std::vector<IPt> v = { { at( -a + k, -b ), 90 }, { at( a - k, -b ), 0 }, { at( a, -b + k ), 90 }, { at( a, b - k ), 0 }, { at( a - k, b ), 90 }, { at( -a + k, b ), 0 }, { at( -a, b - k ), 90 }, { at( -a, -b + k ), 0 } };
                l = ring( v );
            }
        }
        rotate( l );
        return l;
    }
};
}
#endif
