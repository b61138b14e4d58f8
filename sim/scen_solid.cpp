// Solids: surfaces built from outlines, arcs and quadrilaterals.
//   G02 every surface a builder hands out is exactly the one asked for, in whichever
//       document and after whatever other calls of the builder; refused calls leave nothing
#include "scen.h"
#include "plane.h"
#include "faces.h"
#include <cstring>
#include <map>
#include <memory>
#include <geom/mcad_elements.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>
#include <geom/geom_wall.h>
#include <geom/geom_cylinder.h>
#include <api/dll_mcad_segment.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_iges_geom_pcb.h>

namespace
{
MCAD_POINT mp( P2 p ) { return MCAD_POINT( p.x, p.y, 0 ); }
bool isCircle( const Seg& s ) { return s.arc && std::fabs( std::fabs( s.sw ) - 2 * PI ) < 1e-12; }
double distTo( const Seg& s, P2 p )
{
    if( s.arc )
    {
        double t = onArc( s, std::atan2( p.y - s.c.y, p.x - s.c.x ) );
        if( t >= 0 && t <= 1 ) return std::fabs( len( p - s.c ) - s.r );
    }
    else
    {
        P2 d = s.b - s.a;
        double t = ( ( p.x - s.a.x ) * d.x + ( p.y - s.a.y ) * d.y ) / ( d.x * d.x + d.y * d.y );
        if( t > 0 && t < 1 ) return len( p - s.at( t ) );
    }
    return std::min( len( p - s.a ), len( p - s.b ) );
}
MCAD_SEGMENT* make( const Seg& s )
{
    std::unique_ptr<MCAD_SEGMENT> m( new MCAD_SEGMENT );
    bool ok = s.arc ? m->SetParams( mp( s.c ), mp( s.a ), mp( isCircle( s ) ? s.a : s.b ), s.sw < 0 ) : m->SetParams( mp( s.a ), mp( s.b ) );
    REQUIRE( ok, "segment-refused", strf( "SetParams refuses a segment from (%.9g,%.9g) to (%.9g,%.9g)", s.a.x, s.a.y, s.b.x, s.b.y ) );
    return m.release();
}
std::vector<Seg> orient( std::vector<Seg> v, bool want )
{
    if( ( ccw( v ) > 0 ) == want ) return v;
    std::reverse( v.begin(), v.end() );
    for( auto& s : v ) { std::swap( s.a, s.b ); if( s.arc ) { s.a0 += s.sw; s.sw = -s.sw; } }
    return v;
}

// ---- what a document must contain --------------------------------------------
struct Want
{
    enum Kind { SOLID, ROUND, STRIP, QUAD, CURVES, ONPLANE } kind;
    std::vector<std::string> labels;
    Fig fig;                    // SOLID
    Seg s;                      // ROUND, STRIP, CURVES, ONPLANE
    double z0 = 0, z1 = 0;
    bool left = false;          // faces the left of the segment as travelled
    P3 v[4];                    // QUAD
    double x = 0, y = 0, f = 1; // ONPLANE: corner of the plane, scale
    bool flip = false;
};
struct Doc { std::unique_ptr<IGES> i; std::vector<Want> want; int n = 0; };

struct Unit
{
    bool dll = false, open = false;
    std::unique_ptr<IGES_GEOM_PCB> o;
    std::unique_ptr<DLL_IGES_GEOM_PCB> d;
    std::vector<Seg> outer;
    std::vector<std::vector<Seg>> holes;
    ~Unit() { if( d ) d->DelOutline(); }
    std::vector<std::vector<Seg>> material() const
    {
        std::vector<std::vector<Seg>> h;
        for( auto& v : holes ) h.push_back( orient( v, false ) );
        return h;
    }
    Region region() const { return regionOf( orient( outer, true ), material() ); }
    bool addSegment( MCAD_SEGMENT* s, bool& err ) { return dll ? d->AddSegment( s, err ) : o->AddSegment( s, err ); }
    bool walls( IGES* m, bool& err, std::vector<IGES_ENTITY_144*>& v, double t, double b )
    {
        if( !dll ) return o->GetVerticalSurface( m, err, v, t, b );
        return list( v, [&]( IGES_ENTITY_144**& p, int& n ) { return d->GetVerticalSurface( m, err, p, n, t, b ); } );
    }
    bool plane( IGES* m, bool& err, std::vector<IGES_ENTITY_144*>& v, double z, bool rev )
    {
        if( !dll ) return o->GetTrimmedPlane( m, err, v, z, rev );
        return list( v, [&]( IGES_ENTITY_144**& p, int& n ) { return d->GetTrimmedPlane( m, err, p, n, z, rev ); } );
    }
    bool strip( IGES* m, std::vector<IGES_ENTITY_144*>& v, double t, double b, MCAD_SEGMENT* s, bool rev )
    {
        if( !dll ) return o->GetSegmentWall( m, v, t, b, s, rev );
        return list( v, [&]( IGES_ENTITY_144**& p, int& n ) { return d->GetSegmentWall( m, p, n, t, b, s, rev ); } );
    }
    bool curves( IGES* m, std::vector<IGES_ENTITY*>& v, double z, MCAD_SEGMENT* s )
    {
        if( dll ) return list( v, [&]( IGES_CURVE**& p, int& n ) { return d->GetCurves( m, p, n, z, s ); } );
        std::list<IGES_CURVE*> l;
        bool ok = o->GetCurves( m, l, z, s );
        for( auto* c : l ) v.push_back( (IGES_ENTITY*) c );
        return ok;
    }
    bool onPlane( IGES* m, std::vector<IGES_ENTITY*>& v, double x0, double x1, double y0, double y1, double z, MCAD_SEGMENT* s, bool rev )
    {
        if( dll ) return list( v, [&]( IGES_ENTITY_126**& p, int& n ) { return d->GetCurveOnPlane( m, p, n, x0, x1, y0, y1, z, s, rev ); } );
        std::list<IGES_ENTITY_126*> l;
        bool ok = o->GetCurveOnPlane( m, l, x0, x1, y0, y1, z, s, rev );
        for( auto* c : l ) v.push_back( (IGES_ENTITY*) c );
        return ok;
    }
    // the C style lists keep what they held and grow behind it
    template<class T, class F> static bool list( std::vector<T*>& v, const F& call )
    {
        typedef typename std::conditional<std::is_same<T, IGES_ENTITY_144>::value, IGES_ENTITY_144, T>::type X;
        return listOf<T, F>( v, call, (X*) nullptr, &F::operator() );
    }
    template<class T, class F, class E> static bool listOf( std::vector<T*>& v, const F& call, void*, bool ( F::*)( E**&, int& ) const )
    {
        size_t had = v.size();
        int n = had;
        E** p = had ? new E*[had] : nullptr;
        for( size_t i = 0; i < had; ++i ) p[i] = (E*) v[i];
        bool ok = call( p, n );
        REQUIRE( n >= (int) had && ( ok || n == (int) had ), "list-damaged", strf( "a list of %zu came back with %d entries", had, n ) );
        for( size_t i = 0; i < had; ++i ) REQUIRE( p[i] == (E*) v[i], "list-damaged", strf( "entry %zu of the list given was replaced", i ) );
        for( int i = had; i < n; ++i ) v.push_back( (T*) p[i] );
        delete[] p;
        return ok;
    }
};

// one segment for the calls which take one
Seg oneSeg( Rng& r, int kind )
{
    auto c = [&]() { return r.chance( 1, 3 ) ? std::round( r.real( -50, 50 ) ) : q( r.real( -50, 50 ), 3 ); };
    P2 a = { c(), c() };
    double rad = q( r.real( 0.2, 40 ), 3 );
    Seg s;
    if( kind == 0 )
    {
        s.a = a;
        s.b = r.chance( 1, 4 ) ? P2{ a.x + rad, a.y } : r.chance( 1, 3 ) ? P2{ a.x, a.y - rad } : P2{ a.x + q( r.real( -30, 30 ), 3 ), a.y + rad };
        return s;
    }
    if( kind == 1 ) return circle( a, rad, r.chance( 1, 2 ) );
    s.arc = true; s.c = a; s.r = rad;
    // any start and sweep; also those on the axes, and a little beyond them
    auto ang = [&]() { double w = r.chance( 1, 2 ) ? r.real( -PI, PI ) : ( (int) r.below( 9 ) - 4 ) * PI / 4; if( r.chance( 1, 6 ) ) w += r.chance( 1, 2 ) ? 0.01 : -0.01; return w; };
    double a0 = ang(), a1 = ang(), d = std::fmod( a1 - a0, 2 * PI );
    if( d < 0 ) d += 2 * PI;
    if( d * rad < 0.01 || ( 2 * PI - d ) * rad < 0.01 ) d = PI;
    if( r.chance( 1, 10 ) ) { d = std::pow( 10, -r.real( 0.5, 3.5 ) ) / rad; if( d > 3 ) d = 3; if( r.chance( 2, 3 ) ) d = 2 * PI - d; }     // almost a circle, almost nothing
    s.a0 = a0; s.sw = r.chance( 1, 2 ) ? d : -d;
    s.a = s.at( 0 ); s.b = s.at( 1 );
    return s;
}

struct World
{
    std::vector<Doc> docs;
    std::vector<std::unique_ptr<Unit>> units;
    IGES_GEOM_WALL wall;
    IGES_GEOM_CYLINDER cyl;
    int saves = 0, checked = 0;

    Doc& doc( const Op& op ) { return docs[(size_t) op.num( "doc" ) % docs.size()]; }
    Unit* unit( const Op& op ) { return units.empty() ? nullptr : units[(size_t) op.num( "unit" ) % units.size()].get(); }
    template<class T> void label( Doc& d, Want& w, const std::vector<T*>& v )
    {
        for( auto* e : v )
        {
            REQUIRE( e, "null-surface", "a NULL among the entities handed out" );
            std::string l = strf( "S%d", ++d.n );
            REQUIRE( ( (IGES_ENTITY*) e )->SetLabel( l ), "label-refused", "SetLabel refuses " + l );
            w.labels.push_back( l );
        }
    }
    // what is in the file
    static std::string path( size_t k ) { return strf( "/sim/d%zu/model.igs", k ); }
    std::string text( size_t k )
    {
        bool ok = docs[k].i->Write( path( k ).c_str(), true );
        if( docs[k].want.empty() )
        {   // nothing to save
            REQUIRE( !ok, "stray-entity", "a document in which nothing was built is not empty" );
            return "";
        }
        REQUIRE( ok, "save-refused", "Write() fails on a healthy disk" );
        return seam::get( path( k ) );
    }
    void check( const std::string& t, const Doc& d, const char* what )
    {
        if( d.want.empty() ) return;
        DocM m;
        std::string err;
        REQUIRE( ParseText( t, m, err ), "file-malformed", err );
        std::map<std::string, long> at;
        for( size_t i = 0; i < m.ents.size(); ++i )
        {
            std::string l = m.ents[i].label;
            while( !l.empty() && l[0] == ' ' ) l.erase( 0, 1 );
            if( l.empty() ) continue;
            REQUIRE( !at.count( l ), "structure", "two entities are called " + l );
            at[l] = i;
        }
        std::vector<char> used( m.ents.size(), 0 );
        std::vector<long> todo;
        Reader rd( m );
        size_t n = 0;
        for( auto& w : d.want )
        {
            std::vector<long> e;
            rd.where = strf( "%s, item %zu", what, n++ );
            for( auto& l : w.labels )
            {
                if( !at.count( l ) ) rd.bad( "missing-entity", "entity " + l + " is not in the file" );
                e.push_back( at[l] );
                todo.push_back( at[l] );
                at.erase( l );
            }
            item( rd, w, e );
            ++checked;
        }
        rd.where = what;
        if( !at.empty() ) rd.bad( "structure", "an entity called " + at.begin()->first + " which nobody named" );
        while( !todo.empty() )
        {
            long i = todo.back();
            todo.pop_back();
            if( i < 0 || used[i] ) continue;
            used[i] = 1;
            const EntM& e = m.ents[i];
            for( auto& v : e.p ) if( v.k == 'p' )
            {
                todo.push_back( v.i );
                // what belongs to a surface is no geometry in its own right
                if( v.i >= 0 && m.ents[v.i].sub != 1 ) rd.bad( "not-subordinate", strf( "entity %ld of type %d, a part of entity %ld of type %d, has the subordinate entity switch %d", v.i, m.ents[v.i].type, i, e.type, m.ents[v.i].sub ) );
            }
            for( int x : e.exA ) todo.push_back( x );
            for( int x : e.exB ) todo.push_back( x );
            todo.push_back( e.xform );
            todo.push_back( e.colorEnt );
        }
        for( size_t i = 0; i < used.size(); ++i ) if( !used[i] ) rd.bad( "stray-entity", strf( "entity %zu of type %d belongs to nothing that was handed out", i, m.ents[i].type ) );
    }
    static void plain( const Reader& rd, const Integrals& w, const Integrals& g, double ext ) { compare( rd, "wrong-curve", w, g, ext, false ); }
    void item( const Reader& rd, const Want& w, const std::vector<long>& e )
    {
        double ext = 1;
        for( double t : { 0.0, 0.25, 0.5, 0.75, 1.0 } ) { P2 p = w.s.at( t ); ext = std::max( { ext, std::fabs( p.x ), std::fabs( p.y ) } ); }
        switch( w.kind )
        {
        case Want::SOLID:
            if( e.size() != w.labels.size() ) rd.bad( "structure", "a surface is missing" );
            checkFaces( rd, e, w.fig );
            break;
        case Want::ROUND:
        case Want::STRIP:
        {   // a band above one segment
            Integrals want, in[2];
            addSeg( w.s, want );
            std::vector<P3> up;
            double z[2] = { std::min( w.z0, w.z1 ), std::max( w.z0, w.z1 ) };
            for( long i : e )
            {
                const EntM& f = rd.ent( i, 144 );
                if( rd.L( f, 1 ) != 1 || rd.L( f, 2 ) != 0 ) rd.bad( "structure", "a band must have an outer and no inner boundary" );
                for( long c : rd.boundary( rd.L( f, 3 ), rd.L( f, 0 ) ) )
                {
                    P3 a = rd.at( c, 0 ), h = rd.at( c, 0.5 ), b = rd.at( c, 1 );
                    int lv = std::fabs( a.z - z[0] ) < rd.tol ? 0 : std::fabs( a.z - z[1] ) < rd.tol ? 1 : -1;
                    if( lv < 0 ) rd.bad( "wrong-height", strf( "an edge starts at z=%.9g; %.9g to %.9g was asked for", a.z, z[0], z[1] ) );
                    if( std::fabs( b.z - a.z ) < rd.tol && std::fabs( h.z - a.z ) < rd.tol ) integrate( [&]( double t ) { P3 p = rd.at( c, t ); return P2{ p.x, p.y }; }, rd.ent( c ).type == 110 ? 1 : 16, in[lv], 1 );
                    else if( std::fabs( b.z - z[1 - lv] ) < rd.tol && std::hypot( a.x - b.x, a.y - b.y ) < rd.tol ) up.push_back( { a.x, a.y, 0 } );
                    else rd.bad( "wrong-wall", strf( "an edge runs from (%.9g,%.9g,%.9g) to (%.9g,%.9g,%.9g)", a.x, a.y, a.z, b.x, b.y, b.z ) );
                }
                P3 p, nv = rd.facing( f, &p );
                if( w.s.arc || w.z0 > w.z1 )        // a straight wall of exchanged heights is turned round
                {
                    P2 t = w.s.arc ? P2{ -( p.y - w.s.c.y ), p.x - w.s.c.x } * ( w.s.sw > 0 ? 1 : -1 ) : w.s.b - w.s.a;
                    double left = ( -t.y * nv.x + t.x * nv.y ) / len( t );
                    if( std::fabs( std::fabs( left ) - 1 ) > 1e-4 || ( left > 0 ) != w.left ) rd.bad( "facing", strf( "the band at (%.9g,%.9g) faces (%.6g,%.6g,%.6g)", p.x, p.y, nv.x, nv.y, nv.z ) );
                }
            }
            for( int k = 0; k < 2; ++k ) { rd.where.size(); compare( rd, "wrong-wall", want, in[k], ext, false ); }
            // the ends of the segment once, joints between bands twice
            auto count = [&]( P2 p ) { int n = 0; for( auto& u : up ) if( std::hypot( u.x - p.x, u.y - p.y ) < 0.1 * rd.tol ) ++n; return n; };
            for( auto& u : up )
            {
                bool end = !isCircle( w.s ) && ( len( P2{ u.x, u.y } - w.s.a ) < rd.tol || len( P2{ u.x, u.y } - w.s.b ) < rd.tol );
                int n = count( { u.x, u.y } );
                if( n != ( end ? 1 : 2 ) ) rd.bad( "wall-gap", strf( "%d upright edges at (%.9g,%.9g)", n, u.x, u.y ) );
            }
            if( !isCircle( w.s ) ) for( P2 p : { w.s.a, w.s.b } )
            {
                bool hit = false;
                for( auto& u : up ) if( std::hypot( u.x - p.x, u.y - p.y ) < rd.tol ) hit = true;
                if( !hit ) rd.bad( "wall-gap", strf( "no upright edge at the end (%.9g,%.9g)", p.x, p.y ) );
            }
            break;
        }
        case Want::QUAD:
        {
            if( e.size() != 1 ) rd.bad( "structure", "a quadrilateral of several faces" );
            const EntM& f = rd.ent( e[0], 144 );
            if( rd.L( f, 2 ) != 0 ) rd.bad( "structure", "a quadrilateral with holes" );
            auto C = rd.boundary( rd.L( f, 3 ), rd.L( f, 0 ) );
            if( C.size() != 4 ) rd.bad( "wrong-wall", strf( "%zu edges", C.size() ) );
            int k0 = -1;
            for( int k = 0; k < 4; ++k ) if( dist( rd.at( C[0], 0 ), w.v[k] ) < rd.tol ) k0 = k;
            if( k0 < 0 ) rd.bad( "wrong-wall", "the boundary does not start in a corner" );
            int dir = dist( rd.at( C[0], 1 ), w.v[( k0 + 1 ) % 4] ) < rd.tol ? 1 : -1;
            for( int k = 0; k < 4; ++k )
                for( double t : { 0.0, 0.3, 1.0 } )
                {
                    P3 a = w.v[( k0 + dir * k + 8 ) % 4], b = w.v[( k0 + dir * ( k + 1 ) + 8 ) % 4], p = rd.at( C[k], t );
                    P3 x = { a.x + t * ( b.x - a.x ), a.y + t * ( b.y - a.y ), a.z + t * ( b.z - a.z ) };
                    if( dist( p, x ) > rd.tol ) rd.bad( "wrong-wall", strf( "edge %d at %g is at (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g)", k, t, p.x, p.y, p.z, x.x, x.y, x.z ) );
                }
            P3 p, n = rd.facing( f, &p );
            P3 mid = { 0, 0, 0 };
            for( auto& v : w.v ) { mid.x += v.x / 4; mid.y += v.y / 4; mid.z += v.z / 4; }
            if( dist( p, mid ) > rd.tol ) rd.bad( "wrong-wall", "the middle of the surface is elsewhere" );
            P3 a = { w.v[1].x - w.v[0].x + w.v[2].x - w.v[3].x, w.v[1].y - w.v[0].y + w.v[2].y - w.v[3].y, w.v[1].z - w.v[0].z + w.v[2].z - w.v[3].z };
            P3 b = { w.v[3].x - w.v[0].x + w.v[2].x - w.v[1].x, w.v[3].y - w.v[0].y + w.v[2].y - w.v[1].y, w.v[3].z - w.v[0].z + w.v[2].z - w.v[1].z };
            double side = n.x * ( a.y * b.z - a.z * b.y ) + n.y * ( a.z * b.x - a.x * b.z ) + n.z * ( a.x * b.y - a.y * b.x );
            if( !( side > 0 ) ) rd.bad( "facing", "the quadrilateral faces the other way" );
            break;
        }
        case Want::CURVES:
        case Want::ONPLANE:
        {
            Integrals want, got;
            Seg s = w.s;
            auto map = [&]( P2 p ) { P2 o = { ( p.x - w.x ) * w.f, ( p.y - w.y ) * w.f }; if( w.flip ) o.y = 1 - o.y; return o; };
            bool par = w.kind == Want::ONPLANE;
            integrate( [&]( double t ) { P2 p = s.at( t ); return par ? map( p ) : p; }, s.arc ? 16 : 1, want, 1 );
            for( size_t k = 0; k < e.size(); ++k )
            {
                const EntM& c = rd.ent( e[k] );
                if( par ? c.type != 126 : s.arc ? c.type != 100 : c.type != 110 ) rd.bad( "structure", strf( "a curve of type %d", c.type ) );
                integrate( [&]( double t ) { P3 p = rd.at( e[k], t ); return P2{ p.x, p.y }; }, s.arc ? 16 : 1, got, 1 );
                for( double t : { 0.0, 0.37, 1.0 } ) if( std::fabs( rd.at( e[k], t ).z - w.z0 ) > rd.tol ) rd.bad( "wrong-height", strf( "a curve at z=%.9g, expected %.9g", rd.at( e[k], t ).z, w.z0 ) );
                if( k + 1 < e.size() && dist( rd.at( e[k], 1 ), rd.at( e[k + 1], 0 ) ) > rd.tol ) rd.bad( "wrong-curve", strf( "piece %zu does not start where the one before ends", k + 1 ) );
            }
            P3 a = rd.at( e[0], 0 ), b = rd.at( e.back(), 1 );
            P2 wa = par ? map( s.a ) : s.a, wb = par ? map( s.b ) : s.b;
            if( !isCircle( s ) && ( len( P2{ a.x, a.y } - wa ) > rd.tol || len( P2{ b.x, b.y } - wb ) > rd.tol ) ) rd.bad( "wrong-curve", strf( "the pieces lead from (%.9g,%.9g) to (%.9g,%.9g)", a.x, a.y, b.x, b.y ) );
            if( isCircle( s ) && dist( a, b ) > rd.tol ) rd.bad( "wrong-curve", "the pieces of a circle do not close" );
            if( par ) { P2 p0 = map( { 0, 0 } ), p1 = map( { 1, 0 } ); (void) p0; (void) p1; ext = 1; for( double t : { 0.0, 0.25, 0.5, 0.75, 1.0 } ) { P2 p = map( s.at( t ) ); ext = std::max( { ext, std::fabs( p.x ), std::fabs( p.y ) } ); } }
            plain( rd, want, got, ext );
            break;
        }
        }
    }
};

// somewhere inside the unit with room around it; false if nothing was found
bool room( const Unit& u, Rng& r, P2& c, double& rad )
{
    Region R = u.region();
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for( auto& s : R.pieces ) for( double t : { 0.0, 0.25, 0.5, 0.75 } ) { P2 p = s.at( t ); x0 = std::min( x0, p.x ); x1 = std::max( x1, p.x ); y0 = std::min( y0, p.y ); y1 = std::max( y1, p.y ); }
    double best = 0;
    for( int k = 0; k < 24; ++k )
    {
        P2 p = { r.real( x0, x1 ), r.real( y0, y1 ) };
        if( !insideLoop( R.pieces, p ) ) continue;
        double d = 1e9;
        for( auto& s : R.pieces ) d = std::min( d, distTo( s, p ) );
        if( d > best ) { best = d; c = p; }
    }
    rad = best * 0.9;
    return best > 0.05;
}

void opDraw( World& w, const Op& op )
{
    Gen g( op.u64( "seed" ) );
    g.dec = g.r.chance( 1, 3 ) ? 9 : 4; g.f = 1;
    std::unique_ptr<Unit> u( new Unit );
    u->dll = op.num( "dll" );
    if( u->dll ) u->d.reset( new DLL_IGES_GEOM_PCB( true ) ); else u->o.reset( new IGES_GEOM_PCB );
    P2 c = { g.r.chance( 1, 2 ) ? 0 : g.r.real( -80, 80 ), g.r.chance( 1, 2 ) ? 0 : g.r.real( -80, 80 ) };
    Loop l = g.shape( c, g.r.real( 2, 60 ), op.num( "kind" ) );
    if( op.num( "back" ) ) Gen::reverse( l );
    u->outer = segs( l, 1 );
    for( size_t i = 0; i < u->outer.size(); ++i )
    {
        bool err = false, ok;
        MCAD_SEGMENT* s = make( u->outer[i] );
        if( u->dll && op.num( "wrap" ) )
        {
            DLL_MCAD_SEGMENT h( false );
            h.Attach( s );
            ok = u->d->AddSegment( h, err );
            h.Detach();
        }
        else ok = u->addSegment( s, err );
        if( !ok ) { delete s; fail( "segment-refused", strf( "AddSegment refuses segment %zu of %zu", i, u->outer.size() ) ); }
    }
    bool closed = u->dll ? ( u->d->IsClosed( closed ) && closed ) : u->o->IsClosed();
    REQUIRE( closed, "not-closed", "a closed outline is not closed" );
    w.units.push_back( std::move( u ) );
    if( w.units.size() > 6 ) w.units.erase( w.units.begin() );
}

void opHole( World& w, const Op& op )
{
    Unit* u = w.unit( op );
    if( !u ) return;
    Gen g( op.u64( "seed" ) );
    g.dec = 5; g.f = 1;
    P2 c;
    double rad;
    if( u->holes.size() >= 5 || !room( *u, g.r, c, rad ) ) return;
    long kind = op.num( "kind" );
    bool err = false, ok, over = op.num( "overlaps" );
    if( kind == 1 || kind > 12 )
    {
        Seg s = circle( { q( c.x, 4 ), q( c.y, 4 ) }, rad * g.r.real( 0.3, 0.9 ), g.r.chance( 2, 3 ) );
        MCAD_SEGMENT* m = make( s );
        ok = u->dll ? u->d->AddCutout( m, over, err ) : u->o->AddCutout( m, over, err );
        if( !ok ) { delete m; fail( "hole-refused", "AddCutout refuses a hole inside the outline" ); }
        u->holes.push_back( { s } );
    }
    else
    {
        Loop l = g.shape( c, rad, kind );
        if( op.num( "back" ) ) Gen::reverse( l );
        std::vector<Seg> v = segs( l, 1 );
        for( auto& s : v ) if( s.length() < 0.01 ) return;
        std::unique_ptr<MCAD_OUTLINE> o( new MCAD_OUTLINE );
        for( auto& s : v )
        {
            MCAD_SEGMENT* m = make( s );
            if( !o->AddSegment( m, err ) ) { delete m; fail( "segment-refused", "AddSegment refuses a segment of a cutout" ); }
        }
        REQUIRE( o->IsClosed(), "not-closed", "a closed cutout is not closed" );
        ok = u->dll ? u->d->AddCutout( o.get(), over, err ) : u->o->AddCutout( o.get(), over, err );
        REQUIRE( ok, "hole-refused", "AddCutout refuses a cutout inside the outline" );
        o.release();
        u->holes.push_back( v );
    }
    ++g_stats.probes["holes"];
}

void opEmit( World& w, const Op& op )
{
    Unit* u = w.unit( op );
    if( !u ) return;
    Doc& d = w.doc( op );
    Rng r( op.u64( "seed" ) );
    double z0 = q( r.real( -20, 20 ), 3 ), z1 = z0 + ( r.chance( 1, 8 ) ? 0.01 : q( r.real( 0.1, 30 ), 3 ) );
    if( r.chance( 1, 4 ) ) { z1 -= z0; z0 = 0; }
    long what = op.num( "what" );
    bool rev0 = op.num( "rev0", 1 ), rev1 = op.num( "rev1", 0 ), swap = op.num( "swap" );
    Want x;
    x.kind = Want::SOLID;
    x.fig.r = u->region();
    x.fig.z0 = z0; x.fig.z1 = z1;
    x.fig.walls = what & 1;
    x.fig.facing = !swap;           // straight walls of exchanged heights are turned round
    x.fig.planes[0] = ( what & 2 ) != 0; x.fig.planes[1] = ( what & 4 ) != 0;
    x.fig.up[0] = rev0 ? -1 : 1; x.fig.up[1] = rev1 ? -1 : 1;
    std::vector<IGES_ENTITY_144*> v;
    bool err = true;
    auto good = [&]( bool ok, const char* t ) { REQUIRE( ok && !err, "refused", std::string( t ) + " fails" ); err = true; };
    int order = op.num( "order" );
    for( int k = 0; k < 3; ++k )
        switch( ( k + order ) % 3 )
        {
        case 0: if( what & 1 ) good( u->walls( d.i.get(), err, v, swap ? z0 : z1, swap ? z1 : z0 ), "GetVerticalSurface" ); break;
        case 1: if( what & 2 ) good( u->plane( d.i.get(), err, v, z0, rev0 ), "GetTrimmedPlane" ); break;
        default: if( what & 4 ) good( u->plane( d.i.get(), err, v, z1, rev1 ), "GetTrimmedPlane" );
        }
    if( v.empty() ) return;
    w.label( d, x, v );
    d.want.push_back( x );
    ++g_stats.probes["solids"];
}

void opStrip( World& w, const Op& op )
{
    Unit* u = w.unit( op );
    Doc& d = w.doc( op );
    Rng r( op.u64( "seed" ) );
    Want x;
    x.s = oneSeg( r, op.num( "kind" ) );
    bool rev = op.num( "rev" );
    x.z0 = q( r.real( -20, 20 ), 3 ); x.z1 = x.z0 + q( r.real( 0.1, 30 ), 3 );
    if( !op.num( "swap" ) ) std::swap( x.z0, x.z1 );
    std::vector<IGES_ENTITY_144*> v;
    if( op.num( "cyl" ) && x.s.arc )
    {
        std::unique_ptr<IGES_GEOM_CYLINDER> fresh;
        if( op.num( "fresh" ) ) fresh.reset( new IGES_GEOM_CYLINDER );
        IGES_GEOM_CYLINDER& c = fresh ? *fresh : w.cyl;
        if( x.s.sw < 0 ) { std::swap( x.s.a, x.s.b ); x.s.a0 += x.s.sw; x.s.sw = -x.s.sw; }
        REQUIRE( c.SetParams( mp( x.s.c ), mp( x.s.a ), mp( isCircle( x.s ) ? x.s.a : x.s.b ) ), "refused", "IGES_GEOM_CYLINDER::SetParams fails" );
        x.kind = Want::ROUND;
        x.left = rev;
        int times = 1 + op.num( "twice" );
        while( times-- )
        {
            IGES_ENTITY_144** p = (IGES_ENTITY_144**) &w;
            int n = 77;
            v.clear();
            Want y = x;
            REQUIRE( c.Instantiate( d.i.get(), y.z0, y.z1, p, n, rev ) && p && n > 0 && n <= 3, "refused", "IGES_GEOM_CYLINDER::Instantiate fails" );
            v.assign( p, p + n );
            delete[] p;
            w.label( d, y, v );
            d.want.push_back( y );
        }
        ++g_stats.probes["cylinders"];
        return;
    }
    Unit own;
    if( !u || op.num( "fresh" ) )
    {
        u = &own;
        own.dll = op.num( "dll" );
        if( own.dll ) own.d.reset( new DLL_IGES_GEOM_PCB( true ) ); else own.o.reset( new IGES_GEOM_PCB );
    }
    std::unique_ptr<MCAD_SEGMENT> s( make( x.s ) );
    x.kind = Want::STRIP;
    if( isCircle( x.s ) ) { x.s.sw = 2 * PI; }
    x.left = rev;
    REQUIRE( u->strip( d.i.get(), v, x.z0, x.z1, s.get(), rev ), "refused", "GetSegmentWall fails" );
    w.label( d, x, v );
    d.want.push_back( x );
    ++g_stats.probes["strips"];
}

void opCurves( World& w, const Op& op )
{
    Unit* u = w.unit( op );
    Doc& d = w.doc( op );
    Rng r( op.u64( "seed" ) );
    Unit own;
    if( !u || op.num( "fresh" ) )
    {
        u = &own;
        own.dll = op.num( "dll" );
        if( own.dll ) own.d.reset( new DLL_IGES_GEOM_PCB( true ) ); else own.o.reset( new IGES_GEOM_PCB );
    }
    Want x;
    x.s = oneSeg( r, op.num( "kind" ) );
    if( isCircle( x.s ) ) x.s.sw = 2 * PI;
    x.z0 = q( r.real( -20, 20 ), 3 );
    std::unique_ptr<MCAD_SEGMENT> s( make( x.s ) );
    std::vector<IGES_ENTITY*> v;
    for( int k = 0; k < 1 + (int) op.num( "twice" ); ++k )
    {
        Want y = x;
        size_t had = v.size();
        if( op.num( "plane" ) )
        {
            y.kind = Want::ONPLANE;
            MCAD_POINT p0, p1;
            REQUIRE( s->GetBoundingBox( p0, p1 ), "refused", "GetBoundingBox fails" );
            double side = std::max( p1.x - p0.x, p1.y - p0.y ) * r.real( 1.01, 2 );
            y.x = p0.x - r.real( 0, 0.005 ) * side; y.y = p0.y - r.real( 0, 0.005 ) * side;
            y.f = 1 / side;
            y.flip = op.num( "rev" );
            REQUIRE( u->onPlane( d.i.get(), v, y.x, y.x + side, y.y, y.y + side, y.z0, s.get(), y.flip ), "refused", "GetCurveOnPlane fails" );
        }
        else
        {
            y.kind = Want::CURVES;
            REQUIRE( u->curves( d.i.get(), v, y.z0, s.get() ), "refused", "GetCurves fails" );
        }
        REQUIRE( v.size() > had, "refused", "no curves" );
        w.label( d, y, std::vector<IGES_ENTITY*>( v.begin() + had, v.end() ) );
        d.want.push_back( y );
    }
    ++g_stats.probes["curves"];
}

void opQuad( World& w, const Op& op )
{
    Doc& d = w.doc( op );
    Rng r( op.u64( "seed" ) );
    Want x;
    x.kind = Want::QUAD;
    // a convex quadrilateral in some plane; sometimes one corner leaves the plane
    double a = r.real( 0, 2 * PI ), b = r.real( -1.5, 1.5 ), R = r.real( 0.5, 40 );
    P3 e = { std::cos( a ), std::sin( a ), 0 }, f = { -std::sin( a ) * std::sin( b ), std::cos( a ) * std::sin( b ), std::cos( b ) }, o = { q( r.real( -50, 50 ), 2 ), q( r.real( -50, 50 ), 2 ), q( r.real( -50, 50 ), 2 ) };
    bool square = r.chance( 1, 2 );
    double h = r.real( 0.3, 1.5 );
    for( int k = 0; k < 4; ++k )
    {
        double t = PI / 4 + PI / 2 * k + ( square ? 0 : r.real( -0.5, 0.5 ) ), u = R * std::cos( t ), v = R * h * std::sin( t );
        x.v[k] = { q( o.x + u * e.x + v * f.x, 5 ), q( o.y + u * e.y + v * f.y, 5 ), q( o.z + u * e.z + v * f.z, 5 ) };
    }
    if( r.chance( 1, 4 ) ) x.v[r.below( 4 )].z += 0.2 * R;
    std::unique_ptr<IGES_GEOM_WALL> fresh;
    if( op.num( "fresh" ) ) fresh.reset( new IGES_GEOM_WALL );
    IGES_GEOM_WALL& g = fresh ? *fresh : w.wall;
    MCAD_POINT p[4];
    for( int k = 0; k < 4; ++k ) p[k] = MCAD_POINT( x.v[k].x, x.v[k].y, x.v[k].z );
    REQUIRE( g.SetParams( p[0], p[1], p[2], p[3] ), "refused", "IGES_GEOM_WALL::SetParams fails" );
    for( int k = 0; k < 1 + (int) op.num( "twice" ); ++k )
    {
        IGES_ENTITY_144* s = g.Instantiate( d.i.get() );
        REQUIRE( s, "refused", "IGES_GEOM_WALL::Instantiate fails" );
        Want y = x;
        y.labels.clear();
        w.label( d, y, std::vector<IGES_ENTITY_144*>{ s } );
        d.want.push_back( y );
    }
    ++g_stats.probes["quads"];
}

// calls which cannot be served: refused, and nothing is left in the document
void opBad( World& w, const Op& op )
{
    size_t k = (size_t) op.num( "doc" ) % w.docs.size();
    IGES* m = w.docs[k].i.get();
    std::string before = w.text( k );
    Rng r( op.u64( "seed" ) );
    bool err = false;
    std::vector<IGES_ENTITY_144*> v;
    auto no = [&]( bool ok, const char* what ) { REQUIRE( !ok, "accepted", what ); };
    Unit u;
    u.dll = op.num( "dll" );
    if( u.dll ) u.d.reset( new DLL_IGES_GEOM_PCB( true ) ); else u.o.reset( new IGES_GEOM_PCB );
    P2 c = { r.real( -9, 9 ), r.real( -9, 9 ) };
    double z = q( r.real( -9, 9 ), 3 );
    switch( op.num( "what" ) )
    {
    case 0:
        err = false; no( u.walls( m, err, v, 2, 1 ), "the walls of an empty outline" ); REQUIRE( err, "no-error", "an empty outline is no error" );
        err = false; no( u.plane( m, err, v, 2, r.chance( 1, 2 ) ), "the plane of an empty outline" ); REQUIRE( err, "no-error", "an empty outline is no error" );
        break;
    case 1:
    {
        Seg s; s.a = c; s.b = { c.x + 3, c.y };
        Seg t; t.a = s.b; t.b = { c.x + 3, c.y + 2 };
        for( auto& x : { s, t } ) { MCAD_SEGMENT* q = make( x ); if( !u.addSegment( q, err ) ) delete q; }
        err = false; no( u.walls( m, err, v, 2, 1 ), "the walls of an open outline" ); REQUIRE( err, "no-error", "an open outline is no error" );
        err = false; no( u.plane( m, err, v, 2, r.chance( 1, 2 ) ), "the plane of an open outline" ); REQUIRE( err, "no-error", "an open outline is no error" );
        break;
    }
    case 2:
        if( Unit* g = w.unit( op ) )
        {
            err = false; no( g->walls( m, err, v, z, z ), "walls of no height" ); REQUIRE( err, "no-error", "walls of no height are no error" );
            err = false; no( g->walls( nullptr, err, v, z + 1, z ), "walls in no document" ); REQUIRE( err, "no-error", "no document is no error" );
        }
        break;
    case 3:
    {
        std::unique_ptr<MCAD_SEGMENT> s( make( oneSeg( r, r.below( 3 ) ) ) ), none( new MCAD_SEGMENT );
        no( u.strip( nullptr, v, 2, 1, s.get(), r.chance( 1, 2 ) ), "a wall in no document" );
        no( u.strip( m, v, z, z, s.get(), r.chance( 1, 2 ) ), "a wall of no height" );
        no( u.strip( m, v, 2, 1, none.get(), r.chance( 1, 2 ) ), "the wall of a segment without data" );
        std::vector<IGES_ENTITY*> cv;
        no( u.curves( m, cv, z, none.get() ) || !cv.empty(), "the curves of a segment without data" );
        no( u.onPlane( m, cv, 0, 1, 0, 1, z, none.get(), r.chance( 1, 2 ) ) || !cv.empty(), "the curves of a segment without data" );
        break;
    }
    case 4:
    {
        IGES_GEOM_CYLINDER fresh;
        IGES_GEOM_CYLINDER& y = r.chance( 1, 2 ) ? fresh : w.cyl;
        MCAD_POINT p = mp( c ), s = mp( { c.x + 3, c.y } ), e = mp( { c.x, c.y + 3 } );
        if( r.chance( 1, 2 ) ) y.SetParams( p, s, e );
        switch( r.below( 5 ) )
        {
        case 0: no( y.SetParams( p, p, e ), "an arc of no radius" ); break;
        case 1: no( y.SetParams( p, s, p ), "an arc of no radius" ); break;
        case 2: e.y += std::pow( 10, -r.real( 0, 7 ) ); no( y.SetParams( p, s, e ), "an arc of two radii" ); break;
        case 3: ( r.chance( 1, 2 ) ? p : r.chance( 1, 2 ) ? s : e ).z = r.chance( 1, 2 ) ? 1 : -0.5; no( y.SetParams( p, s, e ), "an arc off the plane" ); break;
        default: ( void ) y.SetParams( s, s, s );
        }
        IGES_ENTITY_144** list = (IGES_ENTITY_144**) &w;
        int n = 5;
        no( y.Instantiate( m, 2, 1, list, n, r.chance( 1, 2 ) ), "a cylinder after its parameters were refused" );
        REQUIRE( !list && !n, "list-damaged", "a refused cylinder gives a list" );
        break;
    }
    case 5:
    {
        IGES_GEOM_CYLINDER y;
        y.SetParams( mp( c ), mp( { c.x + 2, c.y } ), mp( { c.x - 2, c.y } ) );
        IGES_ENTITY_144** list = (IGES_ENTITY_144**) &w;
        int n = 5;
        no( y.Instantiate( m, z, z, list, n, r.chance( 1, 2 ) ), "a cylinder of no height" );
        REQUIRE( !list && !n, "list-damaged", "a refused cylinder gives a list" );
        no( y.Instantiate( nullptr, z + 1, z, list, n, r.chance( 1, 2 ) ), "a cylinder in no document" );
        REQUIRE( !list && !n, "list-damaged", "a refused cylinder gives a list" );
        break;
    }
    case 6:
    {
        IGES_GEOM_WALL y;
        no( y.Instantiate( m ) != nullptr, "a wall without corners" );
        y.SetParams( MCAD_POINT( 0, 0, 0 ), MCAD_POINT( 1, 0, 0 ), MCAD_POINT( 1, 0, 1 ), MCAD_POINT( 0, 0, 1 ) );
        no( y.Instantiate( nullptr ) != nullptr, "a wall in no document" );
        break;
    }
    default:
    {
        Unit e;
        e.dll = true;
        e.d.reset( new DLL_IGES_GEOM_PCB( false ) );
        std::unique_ptr<MCAD_SEGMENT> s( make( oneSeg( r, r.below( 3 ) ) ) );
        std::vector<IGES_ENTITY*> cv;
        no( e.walls( m, err, v, 2, 1 ), "a handle without outline" );
        no( e.plane( m, err, v, 2, false ), "a handle without outline" );
        no( e.strip( m, v, 2, 1, s.get(), false ), "a handle without outline" );
        no( e.curves( m, cv, 2, s.get() ), "a handle without outline" );
        no( e.onPlane( m, cv, -1, 1, -1, 1, 2, s.get(), false ), "a handle without outline" );
        MCAD_OUTLINE other;
        no( e.d->Attach( &other ), "an outline of another kind" );
        no( e.d->Attach( nullptr ), "no outline" );
        IGES_GEOM_PCB right;
        REQUIRE( e.d->Attach( &right ), "refused", "Attach refuses an outline of its kind" );
        e.d->Detach();
    }
    }
    REQUIRE( v.empty(), "list-damaged", "a refused call hands out surfaces" );
    std::string after = w.text( k );
    REQUIRE( before == after, "refused-but-changed", "a refused call changed the document: " + FirstDiff( before, after ) );
    ++g_stats.probes["refusals"];
}

void opSave( World& w, const Op& op )
{
    size_t k = (size_t) op.num( "doc" ) % w.docs.size();
    Doc& d = w.docs[k];
    if( !op.faults.empty() )
    {   // whatever happens to this one, the next is complete
        bool ok;
        { Armed a( op ); ok = d.i->Write( World::path( k ).c_str(), true ); }
        REQUIRE( !ok || !d.want.empty(), "stray-entity", "a document in which nothing was built is not empty" );
        if( ok ) w.check( seam::get( World::path( k ) ), d, "saved" );
    }
    std::string t = w.text( k );
    w.check( t, d, "saved" );
    ++w.saves;
    if( op.num( "reload" ) && !d.want.empty() )
    {
        d.i.reset( new IGES );
        REQUIRE( d.i->Read( World::path( k ).c_str() ), "reload-refused", "the file cannot be loaded" );
        w.check( w.text( k ), d, "saved after reloading" );
        ++g_stats.probes["reloads"];
    }
}

void run( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    w.docs.resize( 2 );
    for( auto& d : w.docs ) d.i.reset( new IGES );
    for( auto& op : s.ops )
    {
        step();
        ++g_stats.ops[op.name];
        if( op.name == "draw" ) opDraw( w, op );
        else if( op.name == "hole" ) opHole( w, op );
        else if( op.name == "emit" ) opEmit( w, op );
        else if( op.name == "strip" ) opStrip( w, op );
        else if( op.name == "curves" ) opCurves( w, op );
        else if( op.name == "quad" ) opQuad( w, op );
        else if( op.name == "bad" ) opBad( w, op );
        else if( op.name == "save" ) opSave( w, op );
        trace( strf( "%s %zu %zu", op.name.c_str(), w.docs[0].want.size(), w.docs[1].want.size() ) );
    }
    for( size_t k = 0; k < w.docs.size(); ++k ) { std::string t = w.text( k ); w.check( t, w.docs[k], "saved at the end" ); trace( strf( "%zx", (size_t) hash64( t ) ) ); }
    if( w.checked > 1 ) Nontrivial();
}

void gen( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    auto sd = [&]() { return (long) ( r.next() >> 2 ); };
    auto bit = [&]( int n ) { return (long) r.chance( 1, n ); };
    int n = 3 + r.below( thorough ? 20 : 9 );
    int drawn = 0;
    for( int i = 0; i < n; ++i )
    {
        Op o;
        int what = r.below( 13 );
        if( !drawn && what < 7 ) what = 0;
        switch( what )
        {
        case 0: case 1: o = Op( "draw" ); o.set( "kind", (long) r.below( 13 ) ).set( "back", bit( 2 ) ).set( "dll", bit( 3 ) ).set( "wrap", bit( 2 ) ); ++drawn; break;
        case 2: case 3: o = Op( "hole" ); o.set( "kind", r.chance( 1, 3 ) ? 1L : (long) r.below( 13 ) ).set( "back", bit( 2 ) ).set( "overlaps", bit( 2 ) ); break;
        case 4: case 5: case 6:
            o = Op( "emit" );
            o.set( "what", r.chance( 1, 2 ) ? 7L : (long) ( 1 + r.below( 7 ) ) ).set( "order", (long) r.below( 3 ) ).set( "swap", bit( 5 ) );
            o.set( "rev0", r.chance( 3, 4 ) ? 1L : 0L ).set( "rev1", r.chance( 3, 4 ) ? 0L : 1L );
            break;
        case 7: case 8: o = Op( "strip" ); o.set( "kind", r.chance( 1, 4 ) ? 0L : r.chance( 1, 4 ) ? 1L : 2L ).set( "rev", bit( 2 ) ).set( "swap", bit( 3 ) ).set( "cyl", bit( 2 ) ).set( "fresh", bit( 3 ) ).set( "twice", bit( 5 ) ).set( "dll", bit( 3 ) ); break;
        case 9: o = Op( "curves" ); o.set( "kind", r.chance( 1, 4 ) ? 0L : r.chance( 1, 4 ) ? 1L : 2L ).set( "rev", bit( 2 ) ).set( "plane", bit( 2 ) ).set( "fresh", bit( 3 ) ).set( "twice", bit( 3 ) ).set( "dll", bit( 3 ) ); break;
        case 10: o = Op( "quad" ); o.set( "fresh", bit( 3 ) ).set( "twice", bit( 4 ) ); break;
        case 11: o = Op( "bad" ); o.set( "what", (long) r.below( 8 ) ).set( "dll", bit( 2 ) ); break;
        default: o = Op( "save" ); o.set( "reload", bit( 2 ) ); if( r.chance( 1, 3 ) ) { if( r.chance( 1, 2 ) ) BenignWrite( r, o ); else o.fault( 'w', 1 + r.below( 200 ), r.chance( 1, 2 ) ? "ENOSPC" : "EIO" ); }
        }
        o.set( "doc", (long) r.below( 2 ) );
        if( o.name != "draw" ) o.set( "unit", (long) r.below( 8 ) );
        o.set( "seed", sd() );
        s.ops.push_back( o );
        if( o.name == "draw" && r.chance( 2, 3 ) )
        {   // most outlines are put to use
            Op e( "emit" );
            e.set( "unit", 0L ).set( "doc", (long) r.below( 2 ) ).set( "what", 7L ).set( "rev0", 1L ).set( "rev1", 0L ).set( "seed", sd() );
            e.set( "unit", (long) ( std::min( drawn, 6 ) - 1 ) );
            if( r.chance( 1, 2 ) ) { Op h( "hole" ); h.set( "unit", e.num( "unit" ) ).set( "kind", r.chance( 1, 3 ) ? 1L : (long) r.below( 13 ) ).set( "back", bit( 2 ) ).set( "overlaps", bit( 2 ) ).set( "seed", sd() ); s.ops.push_back( h ); }
            s.ops.push_back( e );
        }
    }
}
RegScenario reg( { "G02", gen, run, "at least two surfaces or curves built and compared with what was asked for" } );
}
