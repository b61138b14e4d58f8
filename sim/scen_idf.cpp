// idf2igs: the board converter, run as a whole program inside the simulator.
//   I01 the exit status tells the truth whatever the disk does; inputs are never touched
//   I02 the assembly written is the board described
//   I03 damaged boards and libraries are refused or converted, never worse
#include "scen.h"
#include "plane.h"
#include "faces.h"
#include <algorithm>
#include <clocale>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>

int idf2igs_main( int argc, char** argv );
int GetComponentColor( void );

namespace
{
// ---- what is written into the board file -----------------------------------
struct Drill { double d; P2 c; std::string owner; };
struct Part { std::string geom, part; bool mm = true, elec = true; double h = 1; Loop o; bool one = false; int props = 0; };
struct Place { std::string geom, part, ref; P2 p; double z = 0, rot = 0; bool bottom = false; std::string state; };
struct Other { std::string id; double th = 1; bool bottom = false; std::vector<Loop> o; };
struct Note { P2 p; double h, l; std::string t; };
struct Bd
{
    bool thou = false;
    int ver = 3, dec = 3;
    bool lower = false, crlf = false, blank = false, comments = false;
    double th = 1.6;                            // file units
    std::vector<Loop> o;                        // outer loop and cutouts, file units
    std::vector<Drill> drills;
    std::vector<Part> parts;                    // own units
    std::vector<Place> places;
    std::vector<Other> others;
    std::vector<Note> notes;
    int sections = 0;                           // bit mask of sections idf2igs has no use for
    bool lib = true;
    double u() const { return thou ? 0.0254 : 1.0; }
};

std::string num( double v, int dec ) { std::string s = strf( "%.*f", dec, v ); if( s == strf( "-%.*f", dec, 0.0 ) ) s.erase( 0, 1 ); return s; }

struct Txt
{
    const Bd& b;
    std::string s;
    explicit Txt( const Bd& bb ) : b( bb ) {}
    void l( const std::string& t ) { s += t; s += b.crlf ? "\r\n" : "\n"; if( b.blank ) s += b.crlf ? "\r\n" : "\n"; }
    std::string kw( std::string k ) const { if( b.lower ) for( char& c : k ) c = tolower( c ); return k; }
    static std::string name( const std::string& n ) { return n.find( ' ' ) != std::string::npos ? '"' + n + '"' : n; }
    void loop( const Loop& o, int idx, int dec )
    {
        for( auto& p : o ) l( strf( "%d %s %s %s", idx, num( p.p.x, dec ).c_str(), num( p.p.y, dec ).c_str(), num( p.ang, 4 ).c_str() ) );
    }
};

std::string boardText( const Bd& b )
{
    Txt t( b );
    t.l( t.kw( ".HEADER" ) );
    t.l( t.kw( "BOARD_FILE" ) + strf( " %d.0 \"simulated ecad\" 2020/02/29.23:59:59 7", b.ver ) );
    t.l( "\"a board\" " + t.kw( b.thou ? "THOU" : "MM" ) );
    t.l( t.kw( ".END_HEADER" ) );
    if( b.comments ) t.l( "# the outline" );
    t.l( t.kw( ".BOARD_OUTLINE" ) + ( b.ver == 3 ? " ECAD" : "" ) );
    t.l( num( b.th, b.dec ) );
    for( size_t i = 0; i < b.o.size(); ++i ) t.loop( b.o[i], i, b.dec );
    t.l( t.kw( ".END_BOARD_OUTLINE" ) );
    auto region = [&]( const char* sec, const std::string& head, const std::string& rec )
    {
        t.l( t.kw( std::string( "." ) + sec ) + head );
        if( !rec.empty() ) t.l( rec );
        Loop o = { { { 0, 0 }, 0 }, { { 5, 0 }, 0 }, { { 5, 5 }, 0 }, { { 0, 0 }, 0 } };
        t.loop( o, 0, b.dec );
        t.l( t.kw( std::string( ".END_" ) + sec ) );
    };
    std::string own = b.ver == 3 ? " ECAD" : "";
    if( b.sections & 1 ) region( "ROUTE_OUTLINE", own, b.ver == 3 ? "ALL" : "" );
    for( auto& o : b.others )
    {
        if( b.comments ) t.l( "# " + o.id );
        t.l( t.kw( ".OTHER_OUTLINE" ) + own );
        t.l( Txt::name( o.id ) + " " + num( o.th, b.dec ) + ( b.ver == 3 ? ( o.bottom ? " BOTTOM" : " TOP" ) : "" ) );
        for( size_t i = 0; i < o.o.size(); ++i ) t.loop( o.o[i], i, b.dec );
        t.l( t.kw( ".END_OTHER_OUTLINE" ) );
    }
    if( b.sections & 2 ) region( "VIA_KEEPOUT", own, "" );
    if( b.sections & 4 ) region( "ROUTE_KEEPOUT", own, b.ver == 3 ? "ALL" : "TOP" );
    if( b.sections & 8 ) region( "PLACE_KEEPOUT", own, "TOP 2.0" );
    if( !b.drills.empty() )
    {
        t.l( t.kw( ".DRILLED_HOLES" ) );
        int k = 0;
        for( auto& d : b.drills )
        {
            static const char* ty[] = { "PIN", "VIA", "MTG", "TOOL", "special" };
            std::string s = num( d.d, b.dec ) + " " + num( d.c.x, b.dec ) + " " + num( d.c.y, b.dec );
            if( b.ver == 3 ) s += strf( " %s %s %s %s", k & 1 ? "NPTH" : "PTH", Txt::name( d.owner ).c_str(), ty[k % 5], k % 3 ? "ECAD" : "MCAD" );
            else s += strf( " %s %s", k & 1 ? "NPTH" : "PTH", Txt::name( d.owner ).c_str() );
            t.l( s );
            ++k;
        }
        t.l( t.kw( ".END_DRILLED_HOLES" ) );
    }
    if( !b.notes.empty() && b.ver == 3 )
    {
        t.l( t.kw( ".NOTES" ) );
        for( auto& n : b.notes ) t.l( num( n.p.x, b.dec ) + " " + num( n.p.y, b.dec ) + " " + num( n.h, b.dec ) + " " + num( n.l, b.dec ) + " \"" + n.t + "\"" );
        t.l( t.kw( ".END_NOTES" ) );
    }
    if( !b.places.empty() )
    {
        if( b.comments ) t.l( "# parts" );
        t.l( t.kw( ".PLACEMENT" ) );
        for( auto& p : b.places )
        {
            t.l( Txt::name( p.geom ) + " " + Txt::name( p.part ) + " " + Txt::name( p.ref ) );
            std::string z = b.ver == 3 ? num( p.z, b.dec ) + " " : "";
            t.l( num( p.p.x, b.dec ) + " " + num( p.p.y, b.dec ) + " " + z + num( p.rot, 3 ) + ( p.bottom ? " BOTTOM " : " TOP " ) + p.state );
        }
        t.l( t.kw( ".END_PLACEMENT" ) );
    }
    return t.s;
}

std::string libText( const Bd& b )
{
    Txt t( b );
    t.l( t.kw( ".HEADER" ) );
    t.l( t.kw( "LIBRARY_FILE" ) + strf( " %d.0 \"simulated ecad\" 2020/02/29.23:59:59 3", b.ver ) );
    t.l( t.kw( ".END_HEADER" ) );
    for( auto& p : b.parts )
    {
        if( b.comments ) t.l( "#" );
        std::string sec = p.elec ? "ELECTRICAL" : "MECHANICAL";
        t.l( t.kw( "." + sec ) );
        int dec = p.mm ? 4 : 2;
        t.l( Txt::name( p.geom ) + " " + Txt::name( p.part ) + " " + ( p.mm ? "MM " : "THOU " ) + num( p.h, dec ) );
        t.loop( p.o, p.one, dec );
        if( p.elec && b.ver == 3 ) for( int i = 0; i < p.props; ++i ) t.l( strf( "PROP %s 1%d.5", i ? "TOLERANCE" : "CAPACITANCE", i ) );
        t.l( t.kw( ".END_" + sec ) );
    }
    return t.s;
}

// ---- what the assembly is expected to contain --------------------------------
struct Inst { std::string label, fig; bool xf = false; double m[12]; };
struct Asm { std::map<std::string, Fig> figs; std::vector<Inst> inst; };

Fig fig( const Region& r, double z0, double z1 ) { Fig f; f.r = r; f.z0 = z0; f.z1 = z1; f.up[0] = -1; f.up[1] = 1; return f; }
Asm expectation( const Bd& b, const std::string& base )
{
    Asm A;
    double u = b.u(), th = b.th * u;
    auto orient = []( std::vector<Seg> v, bool want )
    {
        if( ( ccw( v ) > 0 ) == want ) return v;
        std::reverse( v.begin(), v.end() );
        for( auto& s : v ) { std::swap( s.a, s.b ); if( s.arc ) { s.a0 += s.sw; s.sw = -s.sw; } }
        return v;
    };
    auto area = [&]( const std::vector<Loop>& o, double f, const std::vector<Drill>& dr )
    {
        std::vector<Seg> outer = orient( segs( o[0], f ), true );
        std::vector<std::vector<Seg>> holes;
        for( size_t i = 1; i < o.size(); ++i ) holes.push_back( orient( segs( o[i], f ), false ) );
        for( auto& d : dr ) holes.push_back( { circle( d.c * f, 0.5 * d.d * f, false ) } );
        return regionOf( outer, holes );
    };
    A.figs[base] = fig( area( b.o, u, b.drills ), -th / 2, th / 2 );
    Inst bi; bi.label = base; bi.fig = base;
    A.inst.push_back( bi );
    std::set<std::string> have;
    if( b.lib )
        for( auto& p : b.parts )
        {
            double f = p.mm ? 1 : 0.0254;
            A.figs[p.geom + "_" + p.part] = fig( area( { p.o }, f, {} ), 0, p.h * f );
            have.insert( p.geom + "_" + p.part );
        }
    for( auto& p : b.places )
    {
        std::string id = p.geom + "_" + p.part;
        if( !have.count( id ) ) continue;
        Inst i;
        i.label = p.ref; i.fig = id; i.xf = true;
        double w = p.rot * PI / 180, z = ( b.ver == 3 ? p.z * u : 0 ) + th / 2, c = std::cos( w ), s = std::sin( w );
        if( !p.bottom ) { double m[12] = { c, -s, 0, p.p.x * u, s, c, 0, p.p.y * u, 0, 0, 1, z }; memcpy( i.m, m, sizeof m ); }
        else { double m[12] = { -c, s, 0, p.p.x * u, s, c, 0, p.p.y * u, 0, 0, -1, -z }; memcpy( i.m, m, sizeof m ); }
        A.inst.push_back( i );
    }
    for( auto& o : b.others )
    {
        bool bot = o.bottom && b.ver == 3;
        double t = o.th * u;
        A.figs[o.id] = bot ? fig( area( o.o, u, {} ), -th / 2 - t, -th / 2 ) : fig( area( o.o, u, {} ), th / 2, th / 2 + t );
        Inst i; i.label = o.id; i.fig = o.id;
        A.inst.push_back( i );
    }
    return A;
}

std::string nameOf( const Reader& rd, const EntM& e )
{
    for( auto* v : { &e.exA, &e.exB } )
        for( long i : *v ) { const EntM& n = rd.ent( i ); if( n.type == 406 && n.form == 15 && n.p.size() > 1 ) return n.p[1].s; }
    return "?";
}

void checkAssembly( const DocM& d, const Asm& A )
{
    Reader rd( d );
    std::map<long, std::string> figName;
    std::map<std::string, int> seen;
    std::map<long, int> owner;          // face -> subfigure
    for( size_t i = 0; i < d.ents.size(); ++i )
    {
        const EntM& e = d.ents[i];
        if( e.type != 308 ) continue;
        std::string n = nameOf( rd, e );
        rd.where = "figure '" + n + "'";
        figName[i] = n;
        auto w = A.figs.find( n );
        if( w == A.figs.end() ) rd.bad( "unexpected-figure", "nothing of this name was described" );
        if( seen[n]++ ) rd.bad( "duplicate-figure", "appears twice" );
        checkFigure( rd, e, w->second );
        int col = -2;
        for( long k = 0; k < rd.L( e, 2 ); ++k )
        {
            long f = rd.L( e, 3 + k );
            if( owner.count( f ) ) rd.bad( "structure", "a face belongs to two figures" );
            owner[f] = i;
            int c = rd.ent( f ).colorEnt;
            if( col == -2 ) col = c;
            if( c < 0 || c != col ) rd.bad( "colour", "the faces of one figure differ in colour" );
        }
        if( col >= 0 ) { bool green = nameOf( rd, d.ents[col] ) == "pcb green"; bool isBoard = &w->second == &A.figs.at( A.inst[0].fig ); if( green != isBoard ) rd.bad( "colour", "the board and only the board is green" ); }
    }
    rd.where = "assembly";
    for( auto& f : A.figs ) if( !seen.count( f.first ) ) rd.bad( "missing-figure", "'" + f.first + "' was not converted" );
    for( size_t i = 0; i < d.ents.size(); ++i ) if( d.ents[i].type == 144 && !owner.count( i ) ) rd.bad( "structure", "a face belongs to no figure" );
    std::vector<char> used( A.inst.size(), 0 );
    size_t cnt = 0;
    for( size_t i = 0; i < d.ents.size(); ++i )
    {
        const EntM& e = d.ents[i];
        if( e.type != 408 ) continue;
        ++cnt;
        std::string fig = figName.count( rd.L( e, 0 ) ) ? figName[rd.L( e, 0 )] : "?";
        std::string label = e.label;
        while( !label.empty() && label[0] == ' ' ) label.erase( 0, 1 );
        if( rd.R( e, 1 ) != 0 || rd.R( e, 2 ) != 0 || rd.R( e, 3 ) != 0 || rd.R( e, 4 ) != 1 ) rd.bad( "wrong-instance", "an instance is shifted or scaled" );
        double m[12] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 };
        if( e.xform >= 0 ) for( int k = 0; k < 12; ++k ) m[k] = rd.R( rd.ent( e.xform, 124 ), k );
        bool hit = false;
        std::string why;
        for( size_t k = 0; k < A.inst.size() && !hit; ++k )
        {
            const Inst& w = A.inst[k];
            if( used[k] || w.fig != fig ) continue;
            if( w.label.size() <= 8 && w.label != label ) continue;
            double wm[12] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 };
            if( w.xf ) memcpy( wm, w.m, sizeof wm );
            bool ok = true;
            for( int n = 0; n < 12; ++n ) if( std::fabs( wm[n] - m[n] ) > 1e-7 * ( 1 + std::fabs( wm[n] ) ) ) { ok = false; why = strf( "element %d of the transform is %.9g, expected %.9g", n, m[n], wm[n] ); }
            if( ok ) { used[k] = 1; hit = true; }
        }
        if( !hit ) rd.bad( "wrong-instance", "'" + label + "' of '" + fig + "' is not a placement of the board; " + why );
    }
    if( cnt != A.inst.size() ) rd.bad( "missing-instance", strf( "%zu instances, %zu were described", cnt, A.inst.size() ) );
    if( d.g.units != 2 ) rd.bad( "units", "the assembly is not in millimetres" );
}

struct World
{
    Bd b;
    double W = 0, H = 0, ox = 0, oy = 0;    // mm
    int nx = 0, ny = 0;
    P2 cell0; double cs = 0;                // first cell centre, cell size (mm)
    std::vector<int> kinds;                 // what each cell holds
    std::vector<std::pair<P2, P2>> straight;    // long straight edges of the outline (mm)
    std::vector<char> edgeUsed;
    bool made = false;

    P2 cell( int k ) const { return { cell0.x + cs * ( k % nx ), cell0.y + cs * ( k / nx ) }; }

    void board( const Op& op )
    {
        Gen g( op.u64( "seed" ) );
        b = Bd();
        b.thou = op.num( "thou" );
        b.ver = op.num( "ver", 3 );
        b.dec = b.thou ? g.r.below( 3 ) : 1 + g.r.below( 4 );
        b.lower = g.r.chance( 1, 5 );
        b.crlf = g.r.chance( 1, 4 );
        b.blank = g.r.chance( 1, 6 );
        b.comments = g.r.chance( 1, 2 );
        b.sections = g.r.chance( 1, 3 ) ? g.r.below( 16 ) : 0;
        g.dec = b.dec; g.f = 1 / b.u();
        b.th = std::max( q( g.r.real( 0.3, 3 ) * g.f, b.dec ), std::pow( 10.0, -b.dec ) );
        nx = op.num( "nx", 2 ); ny = op.num( "ny", 2 );
        cs = g.r.real( 8, 20 );
        double m = cs * 0.75;
        W = nx * cs + 2 * m; H = ny * cs + 2 * m;
        ox = g.r.chance( 1, 2 ) ? 0 : g.r.real( -100, 100 ); oy = g.r.chance( 1, 2 ) ? 0 : g.r.real( -100, 100 );
        cell0 = { ox + m + cs / 2, oy + m + cs / 2 };
        double x0 = ox, y0 = oy, x1 = ox + W, y1 = oy + H, k = m * g.r.real( 0.2, 0.6 );
        std::vector<IPt> v;
        Loop l;
        switch( op.num( "shape" ) )
        {
            case 0: v = { { { x0, y0 }, 0 }, { { x1, y0 }, 0 }, { { x1, y1 }, 0 }, { { x0, y1 }, 0 } }; l = g.ring( v ); break;
            case 1: v = { { { x0 + k, y0 }, 90 }, { { x1 - k, y0 }, 0 }, { { x1, y0 + k }, 90 }, { { x1, y1 - k }, 0 }, { { x1 - k, y1 }, 90 }, { { x0 + k, y1 }, 0 }, { { x0, y1 - k }, 90 }, { { x0, y0 + k }, 0 } }; l = g.ring( v ); break;
            case 2: v = { { { x0 + k, y0 }, 0 }, { { x1 - k, y0 }, 0 }, { { x1, y0 + k }, 0 }, { { x1, y1 - k }, 0 }, { { x1 - k, y1 }, 0 }, { { x0 + k, y1 }, 0 }, { { x0, y1 - k }, 0 }, { { x0, y0 + k }, 0 } }; l = g.ring( v ); break;
            case 3:
                v = { { { x0, y0 }, 0 }, { { x1, y0 }, 0 }, { { x1, y1 }, 0 }, { { x0, y1 }, 0 } };
                for( size_t i = 0; i < 4; ++i )
                {
                    P2 a = v[( i + 3 ) % 4].p, c = v[i].p;
                    double ch = len( c - a ), lim = 4 * std::atan( 0.4 * m / ( ch / 2 ) ) * 180 / PI;
                    if( g.r.chance( 2, 3 ) ) v[i].ang = g.r.chance( 1, 2 ) ? g.A( g.r.chance( 1, 3 ) ? g.r.real( 100, 230 ) : g.r.real( 8, 100 ) ) : -g.A( std::max( 2.0, g.r.real( 0.3, 1 ) * lim ) );
                }
                l = g.ring( v );
                break;
            case 4:
            {
                double R = std::hypot( W, H ) / 2;
                P2 c = { ox + W / 2, oy + H / 2 };
                if( g.r.chance( 1, 2 ) ) l = { { g.Q( c ), 0 }, { g.Q( { c.x + R, c.y } ), 360 } };
                else { l = g.ring( { { { c.x - R, c.y }, 0 }, { { c.x + R, c.y }, 180 } } ); l.back().ang = 180; }
                break;
            }
            case 5:
            {   // slots cut into two sides
                double s = m * 0.3, d = m * 0.5, a = x0 + W * g.r.real( 0.3, 0.7 ), c = y0 + H * g.r.real( 0.3, 0.7 );
                v = { { { x0, y0 }, 0 }, { { a - s, y0 }, 0 }, { { a - s, y0 + d - s }, 0 }, { { a + s, y0 + d - s }, -180 }, { { a + s, y0 }, 0 }, { { x1, y0 }, 0 }, { { x1, c - s }, 0 }, { { x1 - d, c - s }, 0 }, { { x1 - d, c + s }, 0 }, { { x1, c + s }, 0 }, { { x1, y1 }, 0 }, { { x0, y1 }, 0 } };
                l = g.ring( v );
                break;
            }
            case 6:
            {   // disk with a slot between the rows or beside the grid
                double R = std::hypot( W, H ) / 2 + m, hs = cs * 0.04, x = std::sqrt( R * R - hs * hs ), d = ny % 2 ? W / 2 - 0.4 * m : -R * g.r.real( 0.2, 0.85 );
                P2 c = { ox + W / 2, oy + H / 2 };
                v = { { { c.x + x, c.y + hs }, 0 }, { { c.x + x, c.y - hs }, q( 360 - 2 * std::asin( hs / R ) * 180 / PI, 3 ) }, { { c.x + d, c.y - hs }, 0 }, { { c.x + d, c.y + hs }, 0 } };
                l = g.ring( v );
                break;
            }
            default:
            {   // polygon around the grid
                int n = 5 + g.r.below( 12 );
                double R = std::hypot( W, H ) / 2 / std::cos( PI / n );
                for( int i = 0; i < n; ++i ) { double t = 2 * PI * i / n, s = R * g.r.real( 1.0, 1.15 ); v.push_back( { { ox + W / 2 + s * std::cos( t ), oy + H / 2 + s * std::sin( t ) }, 0 } ); }
                l = g.ring( v );
            }
        }
        g.rotate( l );
        b.o = { l };
        straight.clear();
        if( op.num( "shape" ) != 6 )
        for( size_t i = 1; i < l.size(); ++i ) if( l[i].ang == 0 && len( l[i].p - l[i - 1].p ) * b.u() > cs * 0.8 ) straight.push_back( { l[i - 1].p * b.u(), l[i].p * b.u() } );
        edgeUsed.assign( straight.size(), 0 );
        kinds.assign( nx * ny, 0 );
        made = true;
    }
    Drill drill( Gen& g, P2 c, double dia )
    {
        static const char* own[] = { "BOARD", "BOARD", "NOREFDES", "R1", "U2", "a part" };
        Drill d;
        d.d = std::max( q( dia * g.f, b.dec ), std::pow( 10.0, -b.dec ) );
        d.c = g.Q( c );
        d.owner = own[g.r.below( 6 )];
        return d;
    }
    int place( const Op& op )
    {   // a cell which is still empty
        if( kinds.empty() ) return -1;
        int k = op.num( "cell" ) % kinds.size();
        for( size_t i = 0; i < kinds.size(); ++i, k = ( k + 1 ) % kinds.size() ) if( !kinds[k] ) { kinds[k] = 1; return k; }
        return -1;
    }
    void feature( const Op& op )
    {
        Gen g( op.u64( "seed" ) );
        g.dec = b.dec; g.f = 1 / b.u();
        double R = cs * 0.45;
        if( op.name == "edge" )
        {   // a hole through a straight edge of the board
            if( straight.empty() ) return;
            size_t k = op.num( "cell" ) % straight.size();
            if( edgeUsed[k] ) return;
            edgeUsed[k] = 1;
            P2 a = straight[k].first, c = straight[k].second, t = ( c - a ) * ( 1 / len( c - a ) );
            double r = cs * g.r.real( 0.06, 0.2 );
            P2 m = ( a + c ) * 0.5, nrm = { -t.y, t.x };
            b.drills.push_back( drill( g, m + nrm * ( r * g.r.real( -0.6, 0.6 ) ), 2 * r ) );
            return;
        }
        int k = place( op );
        if( k < 0 ) return;
        P2 c = cell( k );
        if( op.name == "cut" )
        {
            Loop l = g.shape( c, R, op.num( "kind" ) );
            if( !( l.size() == 2 && g.r.chance( 1, 2 ) ) ) Gen::reverse( l );
            b.o.push_back( l );
            if( op.num( "pierce" ) )
            {   // a hole which overlaps the edge of the cutout, or lies within it
                size_t best = 0;
                double bl = 0;
                for( size_t i = 1; i < l.size(); ++i ) if( l[i].ang == 0 && len( l[i].p - l[i - 1].p ) > bl ) { bl = len( l[i].p - l[i - 1].p ); best = i; }
                if( best && bl * b.u() > 0.3 * R )
                {
                    P2 p = l[best - 1].p * b.u(), e = l[best].p * b.u(), t = ( e - p ) * ( 1 / len( e - p ) );
                    double r = std::min( 0.25 * len( e - p ), cs * 0.05 );
                    b.drills.push_back( drill( g, ( p + e ) * 0.5 + P2{ -t.y, t.x } * ( r * g.r.real( -0.5, 0.5 ) ), 2 * r ) );
                }
            }
        }
        else if( op.name == "hole" )
            b.drills.push_back( drill( g, c, R * g.r.real( 0.05, 1.8 ) ) );
        else if( op.name == "chain" )
        {   // holes which overlap their neighbours
            int n = 2 + op.num( "kind" ) % 5;
            double r = R / ( n + 1 ), w = g.r.real( 0, 2 * PI );
            std::vector<Drill> v;
            for( int i = 0; i < n; ++i )
            {
                double x = ( i - 0.5 * ( n - 1 ) ) * r * 1.5;
                v.push_back( drill( g, { c.x + x * std::cos( w ), c.y + x * std::sin( w ) }, 2 * r * g.r.real( 0.9, 1.1 ) ) );
            }
            for( size_t i = v.size(); i > 1; --i ) std::swap( v[i - 1], v[g.r.below( i )] );
            b.drills.insert( b.drills.end(), v.begin(), v.end() );
        }
        else if( op.name == "twin" )
        {   // the same hole listed twice, or a smaller hole within a larger one
            double d = R * g.r.real( 0.3, 1.2 );
            Drill a = drill( g, c, d ), e = op.num( "kind" ) % 2 ? a : drill( g, { c.x + 0.1 * d, c.y }, d * 0.5 );
            if( g.r.chance( 1, 2 ) ) std::swap( a, e );
            b.drills.push_back( a );
            b.drills.push_back( e );
        }
    }
    void partOp( const Op& op )
    {
        Gen g( op.u64( "seed" ) );
        Part p;
        p.geom = strf( "%s%ld", g.r.chance( 1, 4 ) ? "geo m" : "G", op.num( "id" ) );
        p.part = strf( "P%ld", (long) g.r.below( 3 ) );
        for( auto& o : b.parts ) if( o.geom == p.geom && o.part == p.part ) return;
        p.mm = g.r.chance( 1, 2 );
        p.elec = g.r.chance( 2, 3 );
        p.props = g.r.below( 3 );
        p.one = g.r.chance( 1, 3 );
        g.dec = p.mm ? 4 : 2; g.f = p.mm ? 1 : 1 / 0.0254;
        p.h = q( g.r.real( 0.2, 15 ) * g.f, g.dec );
        p.o = g.shape( { g.r.chance( 1, 2 ) ? 0 : g.r.real( -5, 5 ), g.r.chance( 1, 2 ) ? 0 : g.r.real( -5, 5 ) }, g.r.real( 1, 12 ), op.num( "kind" ) );
        if( g.r.chance( 1, 2 ) ) Gen::reverse( p.o );
        b.parts.push_back( p );
    }
    void placeOp( const Op& op )
    {
        Gen g( op.u64( "seed" ) );
        g.dec = b.dec; g.f = 1 / b.u();
        Place p;
        if( b.parts.empty() || op.num( "ghost" ) ) { p.geom = "NOWHERE"; p.part = "X"; }
        else { const Part& k = b.parts[op.num( "part" ) % b.parts.size()]; p.geom = k.geom; p.part = k.part; }
        static const std::vector<std::string> s3 = { "PLACED", "UNPLACED", "MCAD", "ECAD" }, s2 = { "PLACED", "UNPLACED", "FIXED" };
        p.ref = strf( "%s%ld", g.r.chance( 1, 6 ) ? "long name " : "R", op.num( "ref" ) );
        p.bottom = g.r.chance( 1, 2 );
        p.state = b.ver == 3 ? g.r.pick( s3 ) : g.r.pick( s2 );
        for( auto& o : b.places ) if( o.ref == p.ref ) { p.bottom = o.bottom; p.state = o.state; }
        p.p = g.Q( { ox + g.r.real( 0, W ), oy + g.r.real( 0, H ) } );
        if( g.r.chance( 1, 2 ) ) p.z = q( g.r.real( -1, 3 ) * g.f, b.dec );
        p.rot = g.r.chance( 1, 2 ) ? 90.0 * g.r.below( 4 ) : q( g.r.real( -180, 360 ), 3 );
        b.places.push_back( p );
    }
    void otherOp( const Op& op )
    {
        Gen g( op.u64( "seed" ) );
        g.dec = b.dec; g.f = 1 / b.u();
        Other o;
        o.id = strf( "%s%ld", g.r.chance( 1, 3 ) ? "other thing " : "OT", op.num( "id" ) );
        for( auto& k : b.others ) if( k.id == o.id ) return;
        o.th = std::max( q( g.r.real( 0.1, 5 ) * g.f, b.dec ), std::pow( 10.0, -b.dec ) );
        o.bottom = g.r.chance( 1, 2 );
        P2 c = { ox + g.r.real( 0, W ), oy + g.r.real( 0, H ) };
        double R = g.r.real( 6, 20 );
        Loop l = g.shape( c, R, op.num( "kind" ) % 3 == 0 ? 0 : op.num( "kind" ) % 3 == 1 ? 1 : 9 );
        o.o.push_back( l );
        if( g.r.chance( 1, 2 ) ) { Loop h = g.shape( c, R * 0.2, g.r.below( 13 ) ); Gen::reverse( h ); o.o.push_back( h ); }
        b.others.push_back( o );
    }
    void apply( const Op& op )
    {
        if( op.name == "board" ) board( op );
        else if( !made ) return;
        else if( op.name == "part" ) partOp( op );
        else if( op.name == "place" ) placeOp( op );
        else if( op.name == "other" ) otherOp( op );
        else if( op.name == "cut" || op.name == "hole" || op.name == "chain" || op.name == "twin" || op.name == "edge" ) feature( op );
    }
};

void genBoard( Rng& r, bool thorough, Script& s, bool small )
{
    auto seed = [&] { return (long) ( r.next() >> 2 ); };
    Op bo( "board" );
    int nx = 1 + r.below( small ? 2 : 4 ), ny = 1 + r.below( small ? 2 : 3 );
    bo.set( "seed", seed() ).set( "thou", (long) r.below( 2 ) ).set( "ver", r.chance( 1, 4 ) ? 2L : 3L ).set( "shape", (long) r.below( 8 ) ).set( "nx", (long) nx ).set( "ny", (long) ny );
    s.ops.push_back( bo );
    int n = r.below( nx * ny + 2 );
    for( int i = 0; i < n; ++i )
    {
        Op f( r.pick( std::vector<std::string>{ "cut", "cut", "hole", "hole", "chain", "edge", "twin" } ) );
        f.set( "seed", seed() ).set( "cell", (long) r.below( 12 ) ).set( "kind", (long) r.below( 13 ) );
        if( f.name == "cut" && r.chance( 1, 3 ) ) f.set( "pierce", 1 );
        s.ops.push_back( f );
    }
    n = r.below( small ? 3 : thorough ? 8 : 5 );
    for( int i = 0; i < n; ++i ) { Op p( "part" ); p.set( "seed", seed() ).set( "id", (long) r.below( 6 ) ).set( "kind", (long) r.below( 13 ) ); s.ops.push_back( p ); }
    n = r.below( small ? 4 : thorough ? 14 : 8 );
    for( int i = 0; i < n; ++i )
    {
        Op p( "place" );
        p.set( "seed", seed() ).set( "part", (long) r.below( 8 ) ).set( "ref", (long) r.below( 9 ) );
        if( r.chance( 1, 8 ) ) p.set( "ghost", 1 );
        s.ops.push_back( p );
    }
    n = r.chance( 1, 3 ) ? 1 + r.below( 3 ) : 0;
    for( int i = 0; i < n; ++i ) { Op p( "other" ); p.set( "seed", seed() ).set( "id", (long) r.below( 5 ) ).set( "kind", (long) r.below( 10 ) ); s.ops.push_back( p ); }
}

// one run of the program
int convert( const std::string& path )
{
    while( GetComponentColor() != 8 );
    std::string a0 = "idf2igs", a1 = path;
    char* argv[3] = { &a0[0], &a1[0], nullptr };
    int rc = idf2igs_main( 2, argv );
    setlocale( LC_ALL, "C" );
    return rc;
}
void putInputs( const Bd& b, const std::string& base )
{
    std::string t = boardText( b ), l = libText( b );
    if( getenv( "SIM_DUMP" ) ) { fputs( t.c_str(), stderr ); if( b.lib ) fputs( l.c_str(), stderr ); }
    seam::put( base + ".emn", t );
    seam::remove( base + ".emp" );
    if( b.lib ) seam::put( base + ".emp", l );
}

void genI02( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    genBoard( r, thorough, s, r.chance( 1, 2 ) );
    Op c( "convert" );
    if( r.chance( 1, 2 ) ) BenignRead( r, c );
    if( r.chance( 1, 2 ) ) BenignWrite( r, c );
    s.ops.push_back( c );
}
void runI02( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name != "convert" ) { w.apply( op ); continue; }
        if( !w.made ) continue;
        putInputs( w.b, "/sim/b" );
        int rc;
        { Armed a( op ); rc = convert( "/sim/b.emn" ); }
        REQUIRE( rc == 0, "valid-board-refused", strf( "exit status %d for a valid board", rc ) );
        REQUIRE( seam::open_handles() == 0, "handle-leak", "the converter left a file open" );
        DocM d;
        std::string err, out = seam::get( "/sim/b.igs" );
        if( getenv( "SIM_DUMP" ) ) fputs( out.c_str(), stderr );
        REQUIRE( ParseText( out, d, err ), "malformed-output", err );
        trace( strf( "converted %016llx", (unsigned long long) hash64( out ) ) );
        checkAssembly( d, expectation( w.b, "b" ) );
        Nontrivial();
        ++g_stats.probes["assemblies-checked"];
        g_stats.probes["drills"] += w.b.drills.size();
        g_stats.probes["cutouts"] += w.b.o.size() - 1;
        g_stats.probes["placements"] += w.b.places.size();
    }
}
RegScenario rI02( Scenario{ "I02", genI02, runI02, "a run is non-trivial when a board was converted and its assembly compared with the description" } );

// ---------------------------------------------------------------- I01: faults while a board is converted
const char* const OLD_OUT = "an earlier result\n";

void genI01( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    genBoard( r, thorough, s, r.chance( 3, 4 ) );
    int n = 1 + r.below( thorough ? 6 : 4 );
    for( int i = 0; i < n; ++i )
    {
        Op c( "convert" );
        c.set( "old", (long) r.below( 3 ) );
        auto pos = [&] { return 1 + (long) r.below( r.chance( 1, 2 ) ? 4 : r.chance( 1, 2 ) ? 16 : 80 ); };
        switch( r.below( 8 ) )
        {
            case 0: c.fault( 'o', 1 + r.below( 4 ), r.pick( std::vector<std::string>{ "eio", "eacces", "emfile" } ) ); break;
            case 1: case 2: c.fault( 'r', pos(), "eio" ); c.set( "chunk", r.pick( std::vector<long>{ 7, 80, 333, 1024, 4096 } ) ); break;
            case 3: c.fault( 'w', pos(), r.pick( std::vector<std::string>{ "eio", "enospc", "edquot" } ) ); break;
            case 4: c.set( "cap", (long) r.below( r.chance( 1, 2 ) ? 400 : 30000 ) ); break;
            case 5: c.fault( 'c', 1 + r.below( 4 ), r.pick( std::vector<std::string>{ "eio", "enospc" } ), r.chance( 1, 2 ) ? 0 : 1 + r.below( 4000 ) ); break;
            case 6: c.set( "missing", 1 + r.below( 2 ) ); break;
            default: break;
        }
        if( r.chance( 1, 3 ) ) BenignRead( r, c );
        if( r.chance( 1, 3 ) ) BenignWrite( r, c );
        s.ops.push_back( c );
    }
}

int guarded( const std::string& path )
{
    try { return convert( path ); }
    catch( std::exception& e ) { fail( std::string( "converter-threw:" ) + typeid( e ).name(), e.what() ); }
}

void runI01( const Script& s )
{
    World w;
    std::string ref;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name != "convert" ) { w.apply( op ); continue; }
        if( !w.made ) continue;
        if( ref.empty() )
        {
            putInputs( w.b, "/sim/ref/b" );
            REQUIRE( guarded( "/sim/ref/b.emn" ) == 0, "setup", "a valid board was refused" );
            ref = seam::get( "/sim/ref/b.igs" );
        }
        putInputs( w.b, "/sim/b" );
        if( op.num( "missing" ) == 1 ) seam::remove( "/sim/b.emn" );
        bool noInput = op.num( "missing" ) == 1;
        std::string emn = seam::get( "/sim/b.emn" ), emp = seam::get( "/sim/b.emp" );
        bool hadEmp = seam::exists( "/sim/b.emp" );
        seam::remove( "/sim/b.igs" );
        std::string before;
        if( op.num( "old" ) == 1 ) before = OLD_OUT;
        if( op.num( "old" ) == 2 ) before = ref + OLD_OUT;
        if( op.num( "old" ) ) seam::put( "/sim/b.igs", before );
        int rc;
        bool hurt;
        long writes;
        { Armed a( op ); rc = guarded( op.num( "missing" ) == 2 ? "/sim/elsewhere/b.emn" : "/sim/b.emn" ); hurt = seam::io_error_fired(); writes = seam::calls( 'w' ); }
        noInput = noInput || op.num( "missing" ) == 2;
        std::string got = seam::get( "/sim/b.igs" );
        trace( strf( "rc %d hurt %d writes %ld out %016llx", rc, hurt, writes, (unsigned long long) hash64( got ) ) );
        REQUIRE( seam::open_handles() == 0, "handle-leak", "the converter left a file open" );
        REQUIRE( seam::get( "/sim/b.emn" ) == emn && seam::get( "/sim/b.emp" ) == emp && seam::exists( "/sim/b.emp" ) == hadEmp && seam::exists( "/sim/b.emn" ) == ( op.num( "missing" ) != 1 ),
                 "input-changed", "the converter modified one of its input files" );
        for( auto& f : seam::files )
            REQUIRE( f.first == "/sim/b.emn" || f.first == "/sim/b.emp" || f.first == "/sim/b.igs" || f.first.compare( 0, 9, "/sim/ref/" ) == 0, "stray-file", f.first );
        if( rc == 0 )
        {
            REQUIRE( !noInput, "missing-input-accepted", "success although the board file does not exist" );
            REQUIRE( got == ref, hurt ? "success-but-incomplete" : "success-but-wrong", FirstDiff( ref, got ) );
        }
        else
        {
            REQUIRE( hurt || noInput, "failed-without-error", strf( "exit status %d although every system call succeeded", rc ) );
            if( !writes ) REQUIRE( got == before && seam::exists( "/sim/b.igs" ) == ( op.num( "old" ) != 0 ), "failed-but-touched-output", "the input could not be read but the output file was changed" );
        }
        ++g_stats.probes[rc == 0 ? ( hurt ? "survived-error" : "converted" ) : writes ? "failed-writing" : "failed-reading"];
        if( seam::fired() || noInput ) Nontrivial();
        seam::remove( "/sim/b.igs" );
    }
}
RegScenario rI01( Scenario{ "I01", genI01, runI01, "a run is non-trivial when at least one injected fault fired or an input was missing during a conversion" } );

// ---------------------------------------------------------------- I03: damaged boards and libraries
std::vector<std::string> splitLines( const std::string& t )
{
    std::vector<std::string> v;
    size_t b = 0;
    while( b < t.size() ) { size_t e = t.find( '\n', b ); if( e == std::string::npos ) e = t.size(); v.push_back( t.substr( b, e - b ) ); b = e + 1; }
    return v;
}
std::string damageIdf( const std::string& text, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    std::string k = op.name, t = text;
    if( t.empty() ) return t;
    if( k == "flip" )
    {
        size_t p = r.below( t.size() );
        t[p] = r.chance( 1, 2 ) ? (char)( t[p] ^ ( 1 << r.below( 8 ) ) ) : (char) r.below( 256 );
        return t;
    }
    if( k == "digit" )
    {
        for( int n = 0; n < 200; ++n ) { size_t p = r.below( t.size() ); if( isdigit( (unsigned char) t[p] ) ) { t[p] = "0123456789-+.,eE\" "[r.below( 18 )]; break; } }
        return t;
    }
    if( k == "trunc" ) { t.resize( r.below( t.size() ) ); return t; }
    if( k == "bytes" ) { size_t p = r.below( t.size() ); t.insert( p, std::string( 1 + r.below( r.chance( 1, 4 ) ? 5000 : 20 ), (char) r.pick( std::vector<int>{ ' ', '"', '.', '0', 0, 255, '\r', '\n', '#', '9' } ) ) ); return t; }
    std::vector<std::string> l = splitLines( t );
    size_t i = r.below( l.size() );
    if( k == "dropline" ) l.erase( l.begin() + i );
    else if( k == "dupline" ) l.insert( l.begin() + i, l[i] );
    else if( k == "swapline" && i + 1 < l.size() ) std::swap( l[i], l[i + 1] );
    else if( k == "joinline" && i + 1 < l.size() ) { l[i] += " " + l[i + 1]; l.erase( l.begin() + i + 1 ); }
    else if( k == "moveline" ) { std::string x = l[i]; l.erase( l.begin() + i ); l.insert( l.begin() + r.below( l.size() + 1 ), x ); }
    else if( k == "section" )
    {   // a keyword replaced by another one
        static const std::vector<std::string> kw = { ".HEADER", ".END_HEADER", ".BOARD_OUTLINE", ".END_BOARD_OUTLINE", ".PANEL_OUTLINE", ".OTHER_OUTLINE", ".END_OTHER_OUTLINE", ".ROUTE_OUTLINE", ".PLACE_OUTLINE",
            ".ROUTE_KEEPOUT", ".VIA_KEEPOUT", ".PLACE_KEEPOUT", ".PLACE_REGION", ".DRILLED_HOLES", ".END_DRILLED_HOLES", ".NOTES", ".END_NOTES", ".PLACEMENT", ".END_PLACEMENT", ".ELECTRICAL", ".END_ELECTRICAL", ".MECHANICAL", ".END_MECHANICAL", ".NOSUCH", "." };
        std::vector<size_t> at;
        for( size_t j = 0; j < l.size(); ++j ) if( !l[j].empty() && l[j][0] == '.' ) at.push_back( j );
        if( !at.empty() ) { std::string& x = l[at[r.below( at.size() )]]; size_t e = x.find( ' ' ); x = r.pick( kw ) + ( e == std::string::npos ? "" : x.substr( e ) ); }
    }
    else if( k == "token" )
    {
        std::vector<std::pair<size_t, size_t>> tok;
        const std::string& x = l[i];
        for( size_t p = 0; p < x.size(); )
        {
            while( p < x.size() && x[p] == ' ' ) ++p;
            size_t e = p;
            while( e < x.size() && x[e] != ' ' ) ++e;
            if( e > p ) tok.push_back( { p, e - p } );
            p = e;
        }
        static const std::vector<std::string> nasty = { "", "0", "-1", "1", "2", "99999", "2147483648", "1e308", "-1e308", "1e-308", "nan", "inf", "1.0.0", "\"", "\"\"", "\"a b", "360", "-360", "720", "180", "1e9", "TOP", "BOTTOM", "BOTH", "ALL", "MM", "THOU", "TNM", "INCH", "ECAD", "MCAD", "UNOWNED", "PTH", "NPTH",
            "BOARD", "NOREFDES", "PANEL", "PROP", "PLACED", "UNPLACED", "PIN", "VIA", "0x10", "1,5", "3.0", "2.0", "1.0", "BOARD_FILE", "PANEL_FILE", "LIBRARY_FILE", std::string( 3000, 'x' ) };
        if( !tok.empty() ) { auto q = r.pick( tok ); l[i].replace( q.first, q.second, r.pick( nasty ) ); }
    }
    else if( k == "value" )
    {   // a number scaled or moved a little: geometry which nearly fits
        for( int n = 0; n < 50; ++n )
        {
            std::string& x = l[r.below( l.size() )];
            std::vector<size_t> at;
            for( size_t p = 0; p < x.size(); ++p ) if( ( p == 0 || x[p - 1] == ' ' ) && ( isdigit( (unsigned char) x[p] ) || ( x[p] == '-' && p + 1 < x.size() && isdigit( (unsigned char) x[p + 1] ) ) ) ) at.push_back( p );
            if( at.size() < 2 ) continue;
            size_t p = r.pick( at ), e = x.find( ' ', p );
            if( e == std::string::npos ) e = x.size();
            double v = strtod( x.c_str() + p, nullptr );
            switch( r.below( 5 ) )
            {
                case 0: v = -v; break;
                case 1: v *= 10; break;
                case 2: v += r.real( -0.01, 0.01 ); break;
                case 3: v += r.real( -50, 50 ); break;
                default: v = r.below( 2 ) ? 0 : v / 1000;
            }
            x.replace( p, e - p, strf( "%.6g", v ) );
            break;
        }
    }
    t.clear();
    for( auto& x : l ) t += x + "\n";
    return t;
}

void genI03( uint64_t seed, bool thorough, Script& s )
{
    static const std::vector<std::string> kinds = { "flip", "digit", "digit", "trunc", "bytes", "dropline", "dupline", "swapline", "joinline", "moveline", "section", "token", "token", "token", "value", "value", "value" };
    Rng r( seed );
    genBoard( r, thorough, s, r.chance( 2, 3 ) );
    int n = 1 + r.below( r.chance( 1, 2 ) ? 2 : 6 );
    for( int i = 0; i < n; ++i )
    {
        Op d( r.pick( kinds ) );
        d.set( "seed", (long) ( r.next() >> 2 ) );
        if( r.chance( 1, 3 ) ) d.set( "lib", 1 );
        s.ops.push_back( d );
        if( i + 1 == n || r.chance( 1, 3 ) ) { Op c( "convert" ); c.set( "old", (long) r.below( 2 ) ); s.ops.push_back( c ); }
    }
}
void runI03( const Script& s )
{
    World w;
    std::string ref, emn, emp;
    seam::set_clock( 1700000000, {} );
    seam::alloc_limit = 64ull << 20;
    for( auto& op : s.ops )
    {
        step();
        static const std::set<std::string> make = { "board", "part", "place", "other", "cut", "hole", "chain", "twin", "edge" };
        if( make.count( op.name ) ) { w.apply( op ); continue; }
        if( !w.made ) continue;
        if( ref.empty() )
        {
            putInputs( w.b, "/sim/ref/b" );
            REQUIRE( guarded( "/sim/ref/b.emn" ) == 0, "setup", "a valid board was refused" );
            ref = seam::get( "/sim/ref/b.igs" );
            emn = seam::get( "/sim/ref/b.emn" ); emp = seam::get( "/sim/ref/b.emp" );
        }
        if( op.name != "convert" )
        {
            ++g_stats.faults["file-" + op.name];
            std::string& t = op.num( "lib" ) && !emp.empty() ? emp : emn;
            t = damageIdf( t, op );
            continue;
        }
        if( getenv( "SIM_DUMP" ) ) { fputs( emn.c_str(), stderr ); fputs( emp.c_str(), stderr ); }
        seam::put( "/sim/b.emn", emn );
        seam::remove( "/sim/b.emp" );
        if( !emp.empty() ) seam::put( "/sim/b.emp", emp );
        seam::remove( "/sim/b.igs" );
        if( op.num( "old" ) ) seam::put( "/sim/b.igs", OLD_OUT );
        int rc;
        long writes;
        { Armed a( op ); rc = guarded( "/sim/b.emn" ); writes = seam::calls( 'w' ); }
        REQUIRE( seam::open_handles() == 0, "handle-leak", "the converter left a file open" );
        std::string got = seam::get( "/sim/b.igs" );
        trace( strf( "rc %d writes %ld out %016llx", rc, writes, (unsigned long long) hash64( got ) ) );
        ++g_stats.probes[rc ? "refused" : "accepted"];
        Nontrivial();
        REQUIRE( seam::get( "/sim/b.emn" ) == emn && seam::get( "/sim/b.emp" ) == emp, "input-changed", "the converter modified one of its input files" );
        if( rc ) REQUIRE( got == ( op.num( "old" ) ? OLD_OUT : "" ) && seam::exists( "/sim/b.igs" ) == ( op.num( "old" ) != 0 ), "refused-but-touched-output", "the board was refused but the output file was changed" );
        else
        {
            DocM d;
            std::string err;
            REQUIRE( ParseText( got, d, err ), "malformed-output", err );
            IGES doc;
            REQUIRE( doc.Read( "/sim/b.igs" ), "output-not-loadable", "the library refuses the converted file" );
        }
        REQUIRE( guarded( "/sim/ref/b.emn" ) == 0, "not-reusable", "a valid board was refused afterwards" );
        REQUIRE( seam::get( "/sim/ref/b.igs" ) == ref, "contaminated", FirstDiff( ref, seam::get( "/sim/ref/b.igs" ) ) );
    }
}
}
std::string DamageIdf( const std::string& text, const Op& op ) { return damageIdf( text, op ); }
namespace
{
RegScenario rI03( Scenario{ "I03", genI03, runI03, "a run is non-trivial when at least one damaged board or library was given to the converter" } );
}
