// Random document generator.  Produces the independent model; the model is then
// either written out as a file by WriteText() or built through the programming
// interface.
#include "model.h"
#include <algorithm>
#include <array>
#include <cmath>

namespace
{
struct Gen
{
    Rng& r;
    const GenOpt& o;
    DocM d;
    std::vector<int> xforms, colors, names;
    double mag = 100;
    bool parm = false;      // below a curve in the parameter space of a surface
    std::vector<int> curvesPool, surfPool;

    Gen( Rng& rr, const GenOpt& oo ) : r( rr ), o( oo ) {}

    // a coordinate: short decimals, long decimals, zeros, repeated values
    double co()
    {
        switch( r.below( 8 ) )
        {
            case 0: return 0;
            case 1: return (double) r.range( -9, 9 );
            case 2: return std::round( r.real( -mag, mag ) * 1000 ) / 1000;
            case 3: return r.real( -1, 1 );
            case 4: return std::round( r.real( -mag, mag ) );
            default: return r.real( -mag, mag );
        }
    }
    double len() { double v = std::fabs( co() ); return v < 0.01 ? 0.5 + r.unit() * mag * 0.5 : v; }
    double ang() { return r.real( 0, 2 * M_PI ); }

    int add( const EntM& e ) { d.ents.push_back( e ); return (int) d.ents.size() - 1; }

    static std::string word( Rng& r, int n, const char* set )
    {
        std::string s;
        size_t m = strlen_( set );
        for( int i = 0; i < n; ++i ) s += set[r.below( m )];
        return s;
    }
    static size_t strlen_( const char* s ) { size_t n = 0; while( s[n] ) ++n; return n; }

    int newXform()
    {
        EntM e; e.type = 124;
        static const int fm[4] = { 0, 0, 0, 1 };
        e.form = fm[r.below( 4 )];
        double a = ang(), b = ang(), c = ang();
        if( r.chance( 1, 3 ) ) { a = r.below( 4 ) * M_PI / 2; b = 0; c = 0; }
        double ca = cos( a ), sa = sin( a ), cb = cos( b ), sb = sin( b ), cc = cos( c ), sc = sin( c );
        double m[3][3] = { { ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc },
                           { sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc },
                           { -sb, cb * sc, cb * cc } };
        if( e.form == 1 ) for( int i = 0; i < 3; ++i ) m[i][2] = -m[i][2];
        for( int i = 0; i < 3; ++i )
        {
            for( int j = 0; j < 3; ++j ) e.p.push_back( Val::R( std::fabs( m[i][j] ) < 1e-7 ? 0 : m[i][j] ) );
            e.p.push_back( Val::R( co() ) );
        }
        if( r.chance( 1, 3 ) && o.de ) { e.label = word( r, 1 + r.below( 8 ), "ABCDEFXYZ0189" ); e.subscript = r.below( 100 ); }
        int i = add( e );
        if( !xforms.empty() && r.chance( 1, 5 ) && o.de ) d.ents[i].xform = r.pick( xforms );
        return i;
    }
    int newColor()
    {
        EntM e; e.type = 314; e.use = 2;
        for( int i = 0; i < 3; ++i ) e.p.push_back( Val::R( r.chance( 1, 4 ) ? (double) ( r.below( 2 ) * 100 ) : r.real( 0, 100 ) ) );
        e.color = 1 + r.below( 8 );
        if( r.chance( 1, 2 ) ) e.p.push_back( Val::S( word( r, 1 + r.below( 12 ), "redgnblu;, H5Q" ) ) );
        return add( e );
    }
    int newName()
    {
        EntM e; e.type = 406; e.form = 15;
        e.p.push_back( Val::I( 1 ) );
        e.p.push_back( Val::S( word( r, 1 + r.below( r.chance( 1, 6 ) ? 90 : 20 ), "ABCDEFGHIJabcdefg_-.,;#/0123 H" ) ) );
        e.sub = r.chance( 1, 2 ) ? 2 : 1;
        return add( e );
    }

    void de( EntM& e, bool child )
    {
        e.sub = child ? 1 : 0;
        if( !o.de ) return;
        int t = e.type;
        bool brep = t == 502 || t == 504 || t == 508 || t == 510 || t == 514;
        if( child && t < 500 && r.chance( 1, 4 ) ) e.sub = r.pick( std::vector<int>{ 1, 3, 2 } );
        if( !brep )
        {
            if( r.chance( 1, 3 ) ) e.lineFont = r.below( 6 );
            if( r.chance( 1, 4 ) ) e.weight = r.below( d.g.gradations + 1 );
            if( r.chance( 1, 3 ) ) e.color = r.below( 9 );
            else if( r.chance( 1, 5 ) && !colors.empty() ) e.colorEnt = r.pick( colors );
            if( !child && r.chance( 1, 4 ) && !xforms.empty() ) e.xform = r.pick( xforms );
        }
        if( r.chance( 1, 3 ) ) e.level = r.below( 200 );
        if( r.chance( 1, 4 ) ) e.blank = 1;
        if( r.chance( 1, 3 ) ) e.label = word( r, 1 + r.below( 8 ), "ABCDEFGHLMNOP_012" );
        if( r.chance( 1, 3 ) ) e.subscript = r.chance( 1, 4 ) ? 99999999 : r.below( 1000 );
        if( t == 102 || t == 186 || t == 308 || t == 408 || t == 508 ) e.hier = r.below( 3 );
        if( t == 504 ) e.hier = 1;
        if( t == 502 ) e.hier = 0;
        if( t == 308 ) e.use = 2;
        else if( t == 100 || t == 102 || t == 104 || t == 110 || t == 126 || t == 120 || t == 122 || t == 128 )
        {
            if( r.chance( 1, 8 ) ) e.use = child && r.chance( 1, 2 ) ? 5 : r.below( 6 );
        }
        if( o.names && r.chance( 1, 8 ) && t != 124 && t != 314 )
        {
            int n = names.empty() || r.chance( 1, 2 ) ? newNameDeferred() : r.pick( names );
            e.exB.push_back( n );
        }
        if( o.comments && r.chance( 1, 6 ) )
        {
            int n = 1 + r.below( 3 );
            for( int i = 0; i < n; ++i ) e.comments.push_back( word( r, 1 + r.below( 60 ), "abcdefghij KLMNOP,;H0123456789" ) );
        }
    }
    // names are appended while another entity is under construction; the index is the same
    int newNameDeferred() { int i = newName(); names.push_back( i ); return i; }

    int finish( EntM e, bool child ) { de( e, child ); return add( e ); }

    typedef double P3[3];

    int line( const double* a, const double* b, bool child, int form = -1 )
    {
        EntM e; e.type = 110; e.form = form >= 0 ? form : ( r.chance( 1, 4 ) ? r.below( 3 ) : 0 );
        for( int i = 0; i < 3; ++i ) e.p.push_back( Val::R( a[i] ) );
        for( int i = 0; i < 3; ++i ) e.p.push_back( Val::R( b[i] ) );
        return finish( e, child );
    }
    int rndLine( bool child )
    {
        double a[3] = { co(), co(), co() }, b[3] = { a[0] + len(), a[1] + co(), a[2] + co() };
        return line( a, b, child );
    }
    // arc from angle a0 to a1 (ccw) around (cx,cy) at height z
    int arc( double z, double cx, double cy, double sx, double sy, double ex, double ey, bool child )
    {
        EntM e; e.type = 100;
        for( double v : { z, cx, cy, sx, sy, ex, ey } ) e.p.push_back( Val::R( v ) );
        return finish( e, child );
    }
    int rndArc( bool child, bool full )
    {
        double cx = co(), cy = co(), R = len() + ( parm ? 1 : 0 ), a = ang(), b = a + r.real( 0.2, 6 );
        double sx = cx + R * cos( a ), sy = cy + R * sin( a );
        if( full || r.chance( 1, 5 ) ) return arc( co(), cx, cy, sx, sy, sx, sy, child );
        if( r.chance( 1, 8 ) ) { bool h = r.chance( 1, 2 ); return arc( co(), cx, cy, sx, sy, h ? cx + ( cx - sx ) : sx, h ? sy : cy + ( cy - sy ), child ); }
        return arc( co(), cx, cy, sx, sy, cx + R * cos( b ), cy + R * sin( b ), child );
    }
    int conic( bool child, bool closed )
    {
        EntM e; e.type = 104;
        int f = closed ? 1 : 1 + r.below( 3 );
        e.form = f;
        double a = r.real( 2, 20 ), b = a * r.real( 0.3, 0.8 ), z = co();
        double A, B = 0, C, D = 0, E = 0, F, x1, y1, x2, y2;
        double t0 = ang(), t1 = closed ? t0 : t0 + r.real( 0.5, 5 );
        bool mirror = false;
        if( f == 1 && !closed && r.chance( 1, 4 ) ) { t1 = -t0; mirror = r.chance( 1, 2 ); }
        if( f == 1 ) { A = b * b; C = a * a; F = -a * a * b * b; x1 = a * cos( t0 ); y1 = b * sin( t0 ); x2 = a * cos( t1 ); y2 = b * sin( t1 ); if( mirror ) { x2 = -x2; y2 = -y2; } }
        else if( f == 2 )
        {
            A = b * b; C = -a * a; F = -a * a * b * b;
            double u = r.real( -1.5, 0 ), v = r.real( 0.1, 1.5 );
            x1 = a * cosh( u ); y1 = b * sinh( u ); x2 = a * cosh( v ); y2 = b * sinh( v );
        }
        else
        {   // A x^2 + E y = 0
            A = 1; C = 0; E = -4 * b; F = 0;
            double u = r.real( -5, 0 ), v = r.real( 0.1, 5 );
            x1 = u; y1 = u * u / ( 4 * b ); x2 = v; y2 = v * v / ( 4 * b );
            if( r.chance( 1, 2 ) ) { std::swap( A, C ); std::swap( D, E ); std::swap( x1, y1 ); std::swap( x2, y2 ); }
        }
        if( f != 3 && r.chance( 1, 2 ) )
        {   // away from the origin, and turned
            double h = co() / 4, k = co() / 4, t = r.chance( 1, 2 ) ? 0 : ang(), c = cos( t ), s = sin( t );
            double A1 = A * c * c + C * s * s, B1 = 2 * ( A - C ) * s * c, C1 = A * s * s + C * c * c;
            auto put = [&]( double& x, double& y ) { double p = x * c - y * s + h, q = x * s + y * c + k; x = p; y = q; };
            put( x1, y1 ); put( x2, y2 );
            A = A1; B = B1; C = C1;
            D = -2 * A * h - B * k; E = -2 * C * k - B * h;
            F += A * h * h + B * h * k + C * k * k;
        }
        for( double v : { A, B, C, D, E, F, z, x1, y1, x2, y2 } ) e.p.push_back( Val::R( v ) );
        return finish( e, child );
    }
    // clamped or open knot vector for upper index K, degree M
    std::vector<double> knots( long K, long M, double& lo, double& hi, bool clamped = false )
    {
        std::vector<double> t;
        double v = r.chance( 1, 2 ) ? 0 : std::round( r.real( -5, 5 ) * 8 ) / 8;
        long n = K + M + 2;
        double step = r.chance( 1, 2 ) ? 1.0 : r.real( 0.1, 2 );
        bool unif = r.chance( 1, 6 ) && !clamped;
        for( long i = 0; i < n; ++i )
        {
            t.push_back( v );
            bool inside = unif || ( i >= M && i < n - M - 1 );
            if( inside ) v += ( r.chance( 1, 6 ) && i > M && i < n - M - 2 && !unif ) ? 0 : step;
        }
        lo = t[M];
        hi = t[n - M - 1];
        return t;
    }
    int nurbs( bool child, const double* a, const double* b, bool planar )
    {
        EntM e; e.type = 126;
        long M = 1 + r.below( 4 ), K = M + r.below( r.chance( 1, 10 ) ? 40 : 6 );
        bool rat = r.chance( 1, 2 );
        planar = planar || r.chance( 1, 3 );
        e.form = r.chance( 1, 3 ) ? r.below( 6 ) : 0;
        double lo, hi;
        auto t = knots( K, M, lo, hi, a != nullptr );
        bool closed = a && b && a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
        e.p = { Val::I( K ), Val::I( M ), Val::I( planar ), Val::I( closed ), Val::I( !rat ), Val::I( r.chance( 1, 8 ) ? 1 : 0 ) };
        for( double v : t ) e.p.push_back( Val::R( v ) );
        double w = 1.0;
        for( long i = 0; i <= K; ++i ) { if( rat ) w = r.chance( 1, 3 ) ? 1.0 : r.real( 0.1, 3 ); e.p.push_back( Val::R( w ) ); }
        double z = co();
        for( long i = 0; i <= K; ++i )
        {
            double q[3] = { co(), co(), planar ? z : co() };
            if( a && i == 0 ) std::copy( a, a + 3, q );
            if( b && i == K ) std::copy( b, b + 3, q );
            if( planar && a ) q[2] = a[2];
            for( double v : q ) e.p.push_back( Val::R( v ) );
        }
        if( o.api && !a && !planar && r.chance( 1, 2 ) )
        {   // control points on a line, in an inclined plane, or so but for some of them
            double b0[3] = { co(), co(), co() }, u[3] = { co(), co(), co() }, v[3] = { co(), co(), co() };
            bool line = r.chance( 1, 2 );
            long free = line && r.chance( 1, 2 ) ? 1 + r.below( 3 ) : r.chance( 1, 4 ) ? 1 : 0;
            size_t at = e.p.size() - 3 * ( K + 1 );
            double f = r.chance( 1, 6 ) ? 1e-5 : 1;     // however small it is
            for( long i = 0; i <= K; ++i )
            {
                if( i > K - free ) continue;
                double s = r.below( 17 ) * 0.25 - 2, t = line ? 0 : r.below( 17 ) * 0.25 - 2;
                for( int z = 0; z < 3; ++z ) e.p[at + 3 * i + z].r = b0[z] + f * ( s * u[z] + t * v[z] );
            }
        }
        if( !a && r.chance( 1, 5 ) ) { double s = ( hi - lo ) / 4; lo += s; hi -= s; }
        e.p.push_back( Val::R( lo ) ); e.p.push_back( Val::R( hi ) );
        e.p.push_back( Val::R( 0 ) ); e.p.push_back( Val::R( 0 ) ); e.p.push_back( Val::R( planar ? 1 : 0 ) );
        return finish( e, child );
    }
    int curve( bool child )
    {
        switch( r.below( 5 ) )
        {
            case 0: return rndArc( child, false );
            case 1: return conic( child, false );
            case 2: return nurbs( child, nullptr, nullptr, false );
            case 3: return o.deep ? composite( child, r.chance( 1, 2 ) ) : rndLine( child );
            default: return rndLine( child );
        }
    }
    int share( std::vector<int>& pool, int ( Gen::*make )( bool ) )
    {
        if( o.shared && !pool.empty() && r.chance( 1, 4 ) ) return r.pick( pool );
        int i = ( this->*make )( true );
        pool.push_back( i );
        return i;
    }
    // connected chain of segments in the plane z
    int composite( bool child, bool closed )
    {
        if( o.api && !parm && !closed && r.chance( 1, 6 ) )
        {   // one curve alone, closed or not
            EntM e; e.type = 102;
            int k = r.below( 4 ), c = k == 0 ? rndArc( true, false ) : k == 1 ? conic( true, false ) : k == 2 ? nurbs( true, nullptr, nullptr, false ) : rndLine( true );
            e.p = { Val::I( 1 ), Val::P( c ) };
            return finish( e, child );
        }
        int n = ( closed ? 3 : 1 ) + r.below( 5 );
        double z = co();
        std::vector<std::array<double, 3>> pt;
        for( int i = 0; i <= n; ++i )
            pt.push_back( { co() + i * 0.37, co() - i * 0.21, z } );
        if( closed ) pt[n] = pt[0];
        if( closed && hypot( pt[n][0] - pt[n - 1][0], pt[n][1] - pt[n - 1][1] ) < 1.3 ) { pt[n - 1][0] = pt[0][0] + 2.75; }
        EntM e; e.type = 102;
        std::vector<int> seg;
        for( int i = 0; i < n; ++i )
        {
            double* a = pt[i].data(); double* b = pt[i + 1].data();
            double dx = b[0] - a[0], dy = b[1] - a[1], L = sqrt( dx * dx + dy * dy );
            // the last segment of a closed chain is long enough, also after the last but one has moved by this
            if( L < 0.05 ) { b[0] += 1.25; dx = b[0] - a[0]; L = sqrt( dx * dx + dy * dy ); }
            int k = r.below( 4 );
            if( k == 0 && ( o.paramArc || !parm ) && L > ( parm ? 2.1 : 0.05 ) )
            {   // centre on the bisector
                double h = r.real( -1, 1 ) * L;
                double cx = ( a[0] + b[0] ) / 2 - dy / L * h, cy = ( a[1] + b[1] ) / 2 + dx / L * h;
                seg.push_back( arc( z, cx, cy, a[0], a[1], b[0], b[1], true ) );
            }
            else if( k == 1 ) seg.push_back( nurbs( true, a, b, false ) );
            else seg.push_back( line( a, b, true, 0 ) );
            EntM& s = d.ents[seg.back()];
            s.xform = -1;
        }
        e.p.push_back( Val::I( n ) );
        for( int s : seg ) e.p.push_back( Val::P( s ) );
        return finish( e, child );
    }
    int compositeR( bool child ) { return composite( child, r.chance( 1, 2 ) ); }
    int revolution( bool child )
    {
        EntM e; e.type = 120;
        int L = line( std::array<double, 3>{ co(), co(), 0 }.data(), std::array<double, 3>{ co() + 200, co(), 5 }.data(), true, 0 );
        int C = share( curvesPool, &Gen::curve );
        while( C == L ) C = curve( true );
        double a = r.chance( 1, 2 ) ? 0 : r.real( 0, 3 );
        e.p = { Val::P( L ), Val::P( C ), Val::R( a ), Val::R( r.chance( 1, 2 ) ? a + 2 * M_PI : a + r.real( 0.1, 6 ) ) };
        return finish( e, child );
    }
    int tabcyl( bool child )
    {
        EntM e; e.type = 122;
        int C = share( curvesPool, &Gen::curve );
        e.p = { Val::P( C ), Val::R( co() ), Val::R( co() ), Val::R( len() ) };
        return finish( e, child );
    }
    int bsurf( bool child )
    {
        EntM e; e.type = 128;
        long M1 = 1 + r.below( 3 ), M2 = 1 + r.below( 3 ), K1 = M1 + r.below( 4 ), K2 = M2 + r.below( r.chance( 1, 10 ) ? 20 : 4 );
        bool rat = r.chance( 1, 2 );
        e.form = r.chance( 1, 3 ) ? r.below( 10 ) : 0;
        double ul, uh, vl, vh;
        auto t1 = knots( K1, M1, ul, uh );
        auto t2 = knots( K2, M2, vl, vh );
        e.p = { Val::I( K1 ), Val::I( K2 ), Val::I( M1 ), Val::I( M2 ), Val::I( r.chance( 1, 8 ) ), Val::I( r.chance( 1, 8 ) ), Val::I( !rat ), Val::I( r.chance( 1, 8 ) ), Val::I( r.chance( 1, 8 ) ) };
        for( double v : t1 ) e.p.push_back( Val::R( v ) );
        for( double v : t2 ) e.p.push_back( Val::R( v ) );
        long n = ( K1 + 1 ) * ( K2 + 1 );
        for( long i = 0; i < n; ++i ) e.p.push_back( Val::R( rat && r.chance( 2, 3 ) ? r.real( 0.1, 3 ) : 1.0 ) );
        for( long i = 0; i < 3 * n; ++i ) e.p.push_back( Val::R( co() ) );
        for( double v : { ul, uh, vl, vh } ) e.p.push_back( Val::R( v ) );
        return finish( e, child );
    }
    int surface( bool child )
    {
        switch( r.below( 3 ) )
        {
            case 0: return revolution( child );
            case 1: return tabcyl( child );
            default: return bsurf( child );
        }
    }
    int paramCurve() { bool was = parm; parm = true; int i = paramCurve2(); parm = was; return i; }
    int paramCurve2()
    {
        int k = r.below( 6 );
        if( k == 1 && !o.paramArc ) k = 0;
        switch( k )
        {
            case 0: return rndLine( true );
            case 1: return rndArc( true, r.chance( 1, 2 ) );
            case 2: return nurbs( true, nullptr, nullptr, false );
            default: return composite( true, true );
        }
    }
    int cos142( int surf, bool child )
    {
        EntM e; e.type = 142;
        int B = r.chance( 2, 3 ) ? paramCurve() : -1;
        int C = B < 0 || r.chance( 1, 2 ) ? ( r.chance( 1, 2 ) ? composite( true, true ) : curve( true ) ) : -1;
        if( B >= 0 ) flat( B );
        if( B >= 0 && o.de ) { d.ents[B].use = 5; }
        int pref = B < 0 ? 2 : C < 0 ? 1 : (int) r.below( 4 );
        e.p = { Val::I( r.below( 4 ) ), Val::P( surf ), Val::P( B ), Val::P( C ), Val::I( pref ) };
        int i = finish( e, child );
        d.ents[i].use = 0;
        return i;
    }
    int trimmed( bool child )
    {
        int s = share( surfPool, &Gen::surface );
        EntM e; e.type = 144;
        bool outer = r.chance( 3, 4 );
        int po = outer ? cos142( s, true ) : -1;
        int n2 = r.below( 4 );
        std::vector<int> in;
        for( int i = 0; i < n2; ++i ) in.push_back( cos142( s, true ) );
        e.p = { Val::P( s ), Val::I( outer ), Val::I( n2 ), Val::P( po ) };
        for( int i : in ) e.p.push_back( Val::P( i ) );
        int i = finish( e, child );
        d.ents[i].use = 0;
        return i;
    }
    void unitVec( std::vector<Val>& p )
    {
        if( r.chance( 1, 2 ) ) { int k = r.below( 3 ); for( int i = 0; i < 3; ++i ) p.push_back( Val::R( i == k ) ); return; }
        double v[3] = { r.real( -1, 1 ), r.real( -1, 1 ), r.real( 0.2, 1 ) };
        double n = sqrt( v[0] * v[0] + v[1] * v[1] + v[2] * v[2] );
        for( double q : v ) p.push_back( Val::R( q / n ) );
    }
    int cylinder( bool child )
    {
        EntM e; e.type = 154;
        e.p = { Val::R( len() ), Val::R( len() ), Val::R( co() ), Val::R( co() ), Val::R( co() ) };
        unitVec( e.p );
        int i = finish( e, child );
        d.ents[i].use = 0;
        return i;
    }
    int extrusion( bool child )
    {
        EntM e; e.type = 164;
        int c;
        switch( r.below( 3 ) )
        {
            case 0: c = rndArc( true, true ); break;
            case 1: c = conic( true, true ); break;
            default: c = composite( true, true );
        }
        e.p = { Val::P( c ), Val::R( len() ) };
        unitVec( e.p );
        int i = finish( e, child );
        d.ents[i].use = 0;
        return i;
    }
    int boolTree( bool child )
    {
        EntM e; e.type = 180;
        int n = 2 + r.below( 4 );
        // post-order: operands then operators, randomly interleaved but valid
        std::vector<int> ops;
        for( int i = 0; i < n; ++i ) ops.push_back( r.chance( 1, 2 ) ? cylinder( true ) : extrusion( true ) );
        e.p.push_back( Val::I( 2 * n - 1 ) );
        int depth = 0, used = 0, emitted = 0;
        while( emitted < 2 * n - 1 )
        {
            bool canOp = depth >= 2 && emitted >= 2;
            if( used < n && ( !canOp || r.chance( 1, 2 ) ) ) { e.p.push_back( Val::P( ops[used++] ) ); ++depth; }
            else { e.p.push_back( Val::I( 1 + r.below( 3 ) ) ); --depth; }
            ++emitted;
        }
        int i = finish( e, child );
        d.ents[i].use = 0;
        return i;
    }
    // curves in the parameter space of a surface lie in the plane z = 0
    void flat( int i )
    {
        EntM& e = d.ents[i];
        auto z = [&]( size_t k ) { e.p[k].r = 0; };
        if( e.type == 102 ) { for( auto v : e.p ) if( v.k == 'p' ) flat( v.i ); }
        else if( e.type == 100 ) z( 0 );
        else if( e.type == 110 ) { z( 2 ); z( 5 ); }
        else if( e.type == 126 )
        {
            long k = e.p[0].i, m = e.p[1].i;
            size_t o = 6 + ( k + m + 2 ) + ( k + 1 );
            for( long j = 0; j <= k; ++j ) z( o + 3 * j + 2 );
            e.p[2].i = 1;
            e.p.back().r = 1;
        }
    }
    int surface3( bool child ) { return surface( child ); }
    int shell( bool child, bool open = false )
    {
        // vertices
        EntM v; v.type = 502; v.form = 1;
        int nv = 2 + r.below( 6 );
        v.p.push_back( Val::I( nv ) );
        for( int i = 0; i < 3 * nv; ++i ) v.p.push_back( Val::R( co() ) );
        int V = finish( v, true );
        int V2 = V, nv2 = nv;
        if( r.chance( 1, 4 ) )
        {
            EntM w = v; w.p.resize( 1 ); nv2 = 1 + r.below( 4 ); w.p[0].i = nv2;
            w.exB.clear(); w.comments.clear();
            for( int i = 0; i < 3 * nv2; ++i ) w.p.push_back( Val::R( co() ) );
            V2 = finish( w, true );
        }
        std::vector<std::pair<int, int>> lists;
        int nl = 1 + r.below( 2 );
        for( int l = 0; l < nl; ++l )
        {
            int ne = 1 + r.below( 6 );
            std::vector<int> cs;
            for( int i = 0; i < ne; ++i ) cs.push_back( r.chance( 1, 2 ) ? rndLine( true ) : r.chance( 1, 2 ) ? rndArc( true, false ) : nurbs( true, nullptr, nullptr, false ) );
            EntM e; e.type = 504; e.form = 1;
            e.p.push_back( Val::I( ne ) );
            for( int i = 0; i < ne; ++i )
            {
                bool sw = r.chance( 1, 3 );
                e.p.push_back( Val::P( cs[i] ) );
                e.p.push_back( Val::P( V ) ); e.p.push_back( Val::I( 1 + r.below( nv ) ) );
                e.p.push_back( Val::P( sw ? V2 : V ) ); e.p.push_back( Val::I( 1 + r.below( sw ? nv2 : nv ) ) );
            }
            lists.push_back( { finish( e, true ), ne } );
        }
        EntM s; s.type = 514; s.form = open ? 2 : 1;
        int nf = 1 + r.below( 4 );
        s.p.push_back( Val::I( nf ) );
        for( int f = 0; f < nf; ++f )
        {
            EntM fc; fc.type = 510; fc.form = 1;
            int S = share( surfPool, &Gen::surface );
            int nlp = 1 + r.below( 3 );
            std::vector<int> lps;
            for( int l = 0; l < nlp; ++l )
            {
                EntM lp; lp.type = 508; lp.form = 1;
                int ne = 1 + r.below( 5 );
                struct Ed { int ty, de, ndx; std::vector<int> pc; };
                std::vector<Ed> ed;
                for( int i = 0; i < ne; ++i )
                {
                    Ed q;
                    auto& L = r.pick( lists );
                    q.ty = 0; q.de = L.first; q.ndx = 1 + r.below( L.second );
                    if( r.chance( 1, 6 ) ) { q.ty = 1; q.de = V; q.ndx = 1 + r.below( nv ); }
                    int k = r.chance( 1, 2 ) ? 0 : 1 + r.below( 2 );
                    for( int z = 0; z < k; ++z ) { q.pc.push_back( r.chance( 1, 3 ) ? rndLine( true ) : nurbs( true, nullptr, nullptr, true ) ); flat( q.pc.back() ); }
                    ed.push_back( q );
                }
                lp.p.push_back( Val::I( ne ) );
                for( auto& q : ed )
                {
                    for( Val w : { Val::I( q.ty ), Val::P( q.de ), Val::I( q.ndx ), Val::I( r.below( 2 ) ), Val::I( q.pc.size() ) } ) lp.p.push_back( w );
                    for( int z : q.pc ) { lp.p.push_back( Val::I( r.below( 2 ) ) ); lp.p.push_back( Val::P( z ) ); }
                }
                lps.push_back( finish( lp, true ) );
            }
            fc.p = { Val::P( S ), Val::I( nlp ), Val::I( r.chance( 3, 4 ) ) };
            for( int l : lps ) fc.p.push_back( Val::P( l ) );
            int F = finish( fc, true );
            s.p.push_back( Val::P( F ) ); s.p.push_back( Val::I( r.below( 2 ) ) );
        }
        return finish( s, true );
    }
    int msbo( bool child )
    {
        EntM e; e.type = 186;
        int sh = shell( true );
        int nv = r.chance( 1, 4 ) ? 1 + r.below( 2 ) : 0;
        std::vector<int> vs;
        for( int i = 0; i < nv; ++i ) vs.push_back( shell( true ) );
        e.p = { Val::P( sh ), Val::I( r.below( 2 ) ), Val::I( nv ) };
        for( int v : vs ) { e.p.push_back( Val::P( v ) ); e.p.push_back( Val::I( r.below( 2 ) ) ); }
        int i = finish( e, child );
        return i;
    }
    int subDef( int level )
    {
        EntM e; e.type = 308;
        int n = 1 + r.below( 4 );
        std::vector<int> ch;
        long depth = 0;
        for( int i = 0; i < n; ++i )
        {
            if( level > 0 && r.chance( 1, 3 ) )
            {
                int df = subDef( level - 1 );
                ch.push_back( instance( df, true ) );
                depth = std::max( depth, d.ents[df].p[0].i + 1 );
            }
            else ch.push_back( rootKind( true ) );
        }
        e.p = { Val::I( depth ), Val::S( word( r, 1 + r.below( 24 ), "PARTpart_0123456789 -,;H" ) ), Val::I( n ) };
        for( int c : ch ) e.p.push_back( Val::P( c ) );
        return finish( e, false );
    }
    int instance( int df, bool child )
    {
        EntM e; e.type = 408;
        e.p = { Val::P( df ), Val::R( co() ), Val::R( co() ), Val::R( co() ), Val::R( r.chance( 1, 2 ) ? 1.0 : r.real( 0.2, 4 ) ) };
        return finish( e, child );
    }
    int rootKind( bool child )
    {
        static const std::vector<int> all = { 100, 110, 104, 126, 102, 120, 122, 128, 142, 144, 144, 154, 164, 180, 186 };
        std::vector<int> k = o.roots.empty() ? all : o.roots;
        int t = r.pick( k );
        if( !o.brep && t == 186 ) { if( o.shells ) return shell( child, r.chance( 1, 3 ) ); t = 110; }
        if( t == 186 && r.chance( 1, 4 ) ) return shell( child, r.chance( 2, 3 ) );
        switch( t )
        {
            case 100: return rndArc( child, false );
            case 104: return conic( child, false );
            case 126: return nurbs( child, nullptr, nullptr, false );
            case 102: return compositeR( child );
            case 120: return revolution( child );
            case 122: return tabcyl( child );
            case 128: return bsurf( child );
            case 142: return cos142( share( surfPool, &Gen::surface ), child );
            case 144: return trimmed( child );
            case 154: return cylinder( child );
            case 164: return extrusion( child );
            case 180: return boolTree( child );
            case 186: return msbo( child );
            default: return rndLine( child );
        }
    }
    void permute()
    {
        size_t n = d.ents.size();
        std::vector<int> to( n );
        for( size_t i = 0; i < n; ++i ) to[i] = i;
        for( size_t i = n; i > 1; --i ) std::swap( to[i - 1], to[r.below( i )] );
        std::vector<EntM> e( n );
        for( size_t i = 0; i < n; ++i )
        {
            EntM m = d.ents[i];
            if( m.xform >= 0 ) m.xform = to[m.xform];
            if( m.colorEnt >= 0 ) m.colorEnt = to[m.colorEnt];
            for( auto& v : m.p ) if( v.k == 'p' && v.i >= 0 ) v.i = to[v.i];
            for( int& x : m.exA ) x = to[x];
            for( int& x : m.exB ) x = to[x];
            e[to[i]] = m;
        }
        d.ents = e;
    }
};
}

GlobM GenGlob( Rng& r, bool full )
{
    GlobM g;
    auto w = [&]( int n ) { return Gen::word( r, n, "ABCDEFGHIJKLMNOPabcdefghijk0123456789 _-.,;/" ); };
    if( full && r.chance( 1, 4 ) )
    {
        static const char ds[] = "|/*#!:&";
        g.pd = ds[r.below( 7 )];
        do g.rd = ds[r.below( 7 )]; while( g.rd == g.pd );
        if( r.chance( 1, 3 ) ) g.rd = ';';
        else if( r.chance( 1, 3 ) ) g.pd = ',';
    }
    g.sender = w( 1 + r.below( 30 ) );
    g.file = w( 1 + r.below( r.chance( 1, 8 ) ? 150 : 20 ) );
    g.system = w( 1 + r.below( 30 ) );
    g.preproc = w( 1 + r.below( 20 ) );
    g.receiver = r.chance( 1, 3 ) ? g.sender : w( 1 + r.below( 30 ) );
    if( full )
    {
        g.intBits = r.pick( std::vector<long>{ 16, 32 } );
        g.sigS = 4 + r.below( 3 ); g.sigD = 10 + r.below( 6 );
        g.maxPowS = r.pick( std::vector<long>{ 38, 37, 30 } ); g.maxPowD = r.pick( std::vector<long>{ 308, 307, 99 } );
        g.gradations = 1 + r.below( 64 );
        g.maxWidth = r.pick( std::vector<double>{ 0.1, 0.5, 1.0, 2.5, 10.0 } );
        g.minRes = r.pick( std::vector<double>{ 1e-3, 1e-4, 1e-5, 1e-6, 5e-5, 1e-7, 1e-8, 1e-8 } );
        if( r.chance( 1, 2 ) ) g.maxCoord = r.pick( std::vector<double>{ 1000, 250.5, 1e5 } );
        g.version = 3 + r.below( 9 );
        g.draft = r.below( 8 );
        if( r.chance( 2, 3 ) ) g.author = w( 1 + r.below( 20 ) );
        if( r.chance( 2, 3 ) ) g.org = w( 1 + r.below( 20 ) );
        if( r.chance( 1, 3 ) ) g.proto = w( 1 + r.below( 20 ) );
    }
    auto date = [&]() { return strf( "%04ld%02ld%02ld.%02ld%02ld%02ld", r.range( 1990, 2037 ), r.range( 1, 12 ), r.range( 1, 28 ), r.range( 0, 23 ), r.range( 0, 59 ), r.range( 0, 59 ) ); };
    g.date = date();
    g.modDate = r.chance( 1, 2 ) ? date() : g.date;
    return g;
}

DocM GenDoc( Rng& r, const GenOpt& o )
{
    Gen g( r, o );
    g.d.g = GenGlob( r, o.de );
    g.mag = r.pick( std::vector<double>{ 1, 10, 100, 100, 1000, 50000 } );
    int n = r.chance( 1, 8 ) ? 0 : r.below( 4 );
    for( int i = 0; i < n; ++i )
        g.d.start.push_back( Gen::word( r, 1 + r.below( 72 ), "abcdefgh IJKLMNOP,;0123456789SGDPT" ) );
    if( o.de )
    {
        int nx = r.below( 4 ), nc = r.below( 3 );
        for( int i = 0; i < nx; ++i ) g.xforms.push_back( g.newXform() );
        for( int i = 0; i < nc; ++i ) g.colors.push_back( g.newColor() );
    }
    int roots = 1 + r.below( o.maxRoots );
    for( int i = 0; i < roots; ++i )
    {
        if( o.subfig && r.chance( 1, 5 ) )
        {
            int df = g.subDef( 1 + r.below( 2 ) );
            int ni = r.chance( 1, 3 ) ? 2 : 1;
            for( int k = 0; k < ni; ++k ) g.instance( df, false );
        }
        else g.rootKind( false );
    }
    g.permute();
    return g.d;
}
