// Plane geometry of outlines made of lines, arcs and circles: the reference the
// outlines of the library are compared with.
#ifndef PLANE_H
#define PLANE_H
#include <algorithm>
#include <cmath>
#include <functional>
#include <set>
#include <vector>

namespace
{
const double PI = 3.14159265358979323846;
struct P2 { double x = 0, y = 0; };
P2 operator-( P2 a, P2 b ) { return { a.x - b.x, a.y - b.y }; }
P2 operator+( P2 a, P2 b ) { return { a.x + b.x, a.y + b.y }; }
P2 operator*( P2 a, double f ) { return { a.x * f, a.y * f }; }
double len( P2 a ) { return std::hypot( a.x, a.y ); }
struct Seg
{
    bool arc = false;
    P2 a, b, c;
    double r = 0, a0 = 0, sw = 0;       // start angle and signed sweep of an arc
    P2 at( double t ) const
    {
        if( !arc ) return a + ( b - a ) * t;
        double w = a0 + sw * t;
        return { c.x + r * std::cos( w ), c.y + r * std::sin( w ) };
    }
    double length() const { return arc ? std::fabs( sw ) * r : len( b - a ); }
};
// the same segment between two parameters
Seg part( const Seg& s, double t0, double t1 )
{
    Seg o = s;
    o.a = s.at( t0 ); o.b = s.at( t1 );
    if( s.arc ) { o.a0 = s.a0 + s.sw * t0; o.sw = s.sw * ( t1 - t0 ); }
    return o;
}
Seg circle( P2 c, double r, bool ccw ) { Seg s; s.arc = true; s.c = c; s.r = r; s.a0 = 0; s.sw = ccw ? 2 * PI : -2 * PI; s.a = s.b = { c.x + r, c.y }; return s; }

double onArc( const Seg& s, double ang )        // parameter of a direction, outside [0,1] if not on the arc
{
    double d = ( ang - s.a0 ) / ( s.sw > 0 ? 1 : -1 );
    d = std::fmod( d, 2 * PI );
    if( d < 0 ) d += 2 * PI;
    if( d > 2 * PI - 1e-9 ) d -= 2 * PI;        // the start itself, but for rounding
    return d / std::fabs( s.sw );
}
// parameters on s where it meets o
void meet( const Seg& s, const Seg& o, std::vector<double>& t )
{
    auto add = [&]( P2 p )
    {
        double ts, to;
        if( s.arc ) ts = onArc( s, std::atan2( p.y - s.c.y, p.x - s.c.x ) ); else { P2 d = s.b - s.a; ts = ( ( p.x - s.a.x ) * d.x + ( p.y - s.a.y ) * d.y ) / ( d.x * d.x + d.y * d.y ); }
        if( o.arc ) to = onArc( o, std::atan2( p.y - o.c.y, p.x - o.c.x ) ); else { P2 d = o.b - o.a; to = ( ( p.x - o.a.x ) * d.x + ( p.y - o.a.y ) * d.y ) / ( d.x * d.x + d.y * d.y ); }
        if( ts > 1e-12 && ts < 1 - 1e-12 && to >= -1e-9 && to <= 1 + 1e-9 ) t.push_back( ts );
    };
    if( !s.arc && !o.arc )
    {
        P2 d = s.b - s.a, e = o.b - o.a, w = o.a - s.a;
        double k = d.x * e.y - d.y * e.x;
        if( std::fabs( k ) < 1e-15 ) return;
        add( s.a + d * ( ( w.x * e.y - w.y * e.x ) / k ) );
    }
    else if( s.arc && o.arc )
    {
        P2 d = o.c - s.c;
        double D = len( d );
        if( D < 1e-12 || D > s.r + o.r || D < std::fabs( s.r - o.r ) ) return;
        double x = ( D * D + s.r * s.r - o.r * o.r ) / ( 2 * D ), h = s.r * s.r - x * x;
        h = h > 0 ? std::sqrt( h ) : 0;
        P2 u = d * ( 1 / D );
        add( { s.c.x + u.x * x - u.y * h, s.c.y + u.y * x + u.x * h } );
        add( { s.c.x + u.x * x + u.y * h, s.c.y + u.y * x - u.x * h } );
    }
    else
    {
        const Seg& L = s.arc ? o : s;
        const Seg& A = s.arc ? s : o;
        P2 d = L.b - L.a;
        double D = len( d );
        P2 u = d * ( 1 / D ), w = A.c - L.a;
        double x = w.x * u.x + w.y * u.y, y = w.x * u.y - w.y * u.x, h = A.r * A.r - y * y;
        if( h < 0 ) return;
        h = std::sqrt( h );
        add( L.a + u * ( x - h ) );
        add( L.a + u * ( x + h ) );
    }
}

// point inside a closed loop
bool insideLoop( const std::vector<Seg>& l, P2 p )
{
    if( l.size() == 1 && l[0].arc ) return len( p - l[0].c ) < l[0].r;
    // exact for arcs: the polygon of the chords corrected by the circular segments
    double turn = 0;
    bool flip = false;
    for( auto& s : l )
    {
        int n = s.arc ? std::max( 2, (int) std::ceil( std::fabs( s.sw ) / ( PI / 4 ) ) ) : 1;
        for( int i = 0; i < n; ++i )
        {
            Seg k = part( s, (double) i / n, (double)( i + 1 ) / n );
            P2 q0 = k.at( 0 ) - p, q1 = k.at( 1 ) - p;
            turn += std::atan2( q0.x * q1.y - q0.y * q1.x, q0.x * q1.x + q0.y * q1.y );
            if( k.arc && len( p - k.c ) < k.r )
            {   // between chord and arc
                P2 ch = k.at( 1 ) - k.at( 0 ), v = p - k.at( 0 ), m = k.at( 0.5 ) - k.at( 0 );
                double side = ch.x * v.y - ch.y * v.x, ms = ch.x * m.y - ch.y * m.x;
                if( side * ms > 0 ) flip = !flip;
            }
        }
    }
    return ( std::lround( turn / ( 2 * PI ) ) % 2 != 0 ) != flip;      // the chords may cross each other
}

struct Integrals
{
    double area = 0, mx = 0, my = 0;            // of the region: 1, x, y
    double l = 0, lx = 0, ly = 0, lxx = 0, lyy = 0, lxy = 0;     // along the boundary
};
const double GX[5] = { 0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640 };
const double GW[5] = { 0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891 };
// along a plane curve given by its points
template<class F> void integrate( const F& at, int n, Integrals& o, double sign )
{
    for( int k = 0; k < n; ++k )
    {
        double h = 1.0 / n;
        for( int g = 0; g < 5; ++g )
        {
            double t = ( k + 0.5 * ( 1 + GX[g] ) ) * h, e = 1e-4 * h;
            P2 p = at( t ), d = ( ( at( t + e ) - at( t - e ) ) * 8 - ( at( t + 2 * e ) - at( t - 2 * e ) ) ) * ( 1 / ( 12 * e ) );
            double w = GW[g] * 0.5 * h, ds = len( d ) * w;
            o.area += sign * w * 0.5 * ( p.x * d.y - p.y * d.x );
            o.mx += sign * w * p.x * p.x * 0.5 * d.y;
            o.my -= sign * w * p.y * p.y * 0.5 * d.x;
            o.l += ds; o.lx += ds * p.x; o.ly += ds * p.y; o.lxx += ds * p.x * p.x; o.lyy += ds * p.y * p.y; o.lxy += ds * p.x * p.y;
        }
    }
}
void addSeg( const Seg& s, Integrals& o )
{
    integrate( [&]( double t ) { return s.at( t ); }, s.arc ? 1 + (int)( std::fabs( s.sw ) * 8 / PI ) : 1, o, 1 );
}

double ccw( const std::vector<Seg>& l ) { Integrals i; for( auto& s : l ) addSeg( s, i ); return i.area; }
}
#endif
