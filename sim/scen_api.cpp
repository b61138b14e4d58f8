// W05, M02, M03, M04, M06: documents built and edited through the programming
// interface.  A reference model of up to three documents (entities, attributes,
// associations, ownership) is kept beside the library; after every operation the
// two are compared through the getters, and after every save through the file.
#include "scen.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <unordered_map>

namespace
{
const int NDOC = 3;
const double MM[12] = { 0, 25.4, 1, 0, 304.8, 1609344.0, 1000, 1e6, 0.0254, 0.001, 10, 0.0000254 };
const char* const UNAME[12] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };

struct Node
{
    EntM e;                     // pointers are node numbers
    IGES_ENTITY* p = nullptr;   // NULL: read from a file, no access through the interface (yet)
    bool flag = false;          // validity flag maintained by the library
    int doc = -1;
    bool dead = false;
    bool opaque = false;        // came from a file
};

struct DocW
{
    std::unique_ptr<IGES> doc;
    bool flag = false;
    GlobM g;
    std::vector<std::string> start;
    bool autoStart = false;     // the library put its own line into an empty start section
    std::vector<int> order;     // order in the document as far as it is known
};

struct Name { std::string n; };

typedef std::vector<int> VI;

struct World
{
    std::deque<Node> n;
    std::deque<DocW> d;
    std::unordered_map<IGES_ENTITY*, int> of;
    VI loose;                       // taken out of their document, owned by the user
    std::set<std::string> names;    // names handed out for exported parts
    int links = 0, kills = 0, culled = 0, kept = 0, exports = 0, saves = 0, attrs = 0;
    bool queries = false;           // Q01: geometric questions are asked along the way
    int asked = 0, changed = 0;

    World() { d.resize( NDOC ); for( int i = 0; i < NDOC; ++i ) fresh( i ); }
    ~World() { d.clear(); }

    void fresh( int i )
    {
        if( d[i].doc )
        {
            d[i].doc.reset();
            REQUIRE( !d[i].flag, "document-flag", "the validity flag of a destroyed document is still set" );
        }
        for( int k : VI( d[i].order ) ) { n[k].dead = true; if( n[k].p ) of.erase( n[k].p ); }
        d[i].order.clear();
        d[i].start.clear(); d[i].autoStart = false;
        d[i].g = GlobM(); d[i].g.minRes = 1e-8; d[i].g.maxWidth = 0;
        d[i].doc.reset( new IGES );
        d[i].flag = false;
        d[i].doc->AttachValidFlag( &d[i].flag );
        REQUIRE( d[i].flag, "document-flag", "AttachValidFlag() did not set the flag" );
    }
    int add( int doc, const EntM& e, IGES_ENTITY* p )
    {
        n.emplace_back();
        int k = (int) n.size() - 1;
        n[k].e = e; n[k].doc = doc; n[k].opaque = !p && e.type;
        d[doc].order.push_back( k );
        if( p ) attach( k, p );
        return k;
    }
    void attach( int k, IGES_ENTITY* p )
    {
        n[k].p = p;
        of[p] = k;
        p->AttachValidFlag( &n[k].flag );
        REQUIRE( n[k].flag, "entity-flag", "AttachValidFlag() did not set the flag" );
    }
    void forKids( int k, const std::function<void( int )>& f ) const
    {
        const EntM& e = n[k].e;
        for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) f( (int) v.i );
        if( e.xform >= 0 ) f( e.xform );
        if( e.colorEnt >= 0 ) f( e.colorEnt );
        for( int x : e.exA ) f( x );
        for( int x : e.exB ) f( x );
    }
    std::set<int> kids( int k ) const { std::set<int> s; forKids( k, [&]( int c ) { s.insert( c ); } ); return s; }
    // number of distinct parents, for all entities of a document
    std::vector<int> refs( int doc ) const
    {
        std::vector<int> r( n.size(), 0 );
        for( int k : d[doc].order ) for( int c : kids( k ) ) ++r[c];
        return r;
    }
    VI parents( int k ) const
    {
        VI r;
        for( int q : d[n[k].doc].order ) if( kids( q ).count( k ) ) r.push_back( q );
        return r;
    }
    bool reaches( int a, int b ) const
    {
        std::set<int> seen;
        VI todo{ a };
        while( !todo.empty() )
        {
            int k = todo.back(); todo.pop_back();
            if( k == b ) return true;
            if( !seen.insert( k ).second ) continue;
            forKids( k, [&]( int c ) { todo.push_back( c ); } );
        }
        return false;
    }
    // what the parent keeps when one of its children disappears
    void unlink( int q, int k )
    {
        EntM& e = n[q].e;
        auto cut = []( std::vector<int>& v, int x ) { v.erase( std::remove( v.begin(), v.end(), x ), v.end() ); };
        if( e.xform == k ) e.xform = -1;
        if( e.colorEnt == k ) { e.colorEnt = -1; e.color = 0; }
        cut( e.exA, k ); cut( e.exB, k );
        auto erase = [&]( size_t from, size_t step )
        {
            for( size_t i = from; i < e.p.size(); )
                if( e.p[i].k == 'p' && e.p[i].i == k ) e.p.erase( e.p.begin() + i, e.p.begin() + i + step );
                else i += step;
        };
        bool in = false;
        for( auto& v : e.p ) if( v.k == 'p' && v.i == k ) in = true;
        if( !in ) return;
        switch( e.type )
        {
            case 102:
            {
                size_t i = 1;
                while( e.p[i].i != k ) ++i;
                if( i == 1 || i + 1 == e.p.size() ) e.p.erase( e.p.begin() + i );
                else e.p.resize( 1 );
                e.p[0].i = (long) e.p.size() - 1;
                break;
            }
            case 180: e.p.resize( 1 ); e.p[0].i = 0; break;
            case 144:
                if( e.p[0].i == k ) e.p[0].i = -1;
                if( e.p[3].i == k ) { e.p[3].i = -1; e.p[1].i = 0; }
                erase( 4, 1 );
                e.p[2].i = (long) e.p.size() - 4;
                break;
            case 308: erase( 3, 1 ); e.p[2].i = (long) e.p.size() - 3; break;
            case 510:
                if( e.p[0].i == k ) e.p[0].i = -1;
                erase( 3, 1 );
                e.p[1].i = (long) e.p.size() - 3;
                break;
            case 514: erase( 1, 2 ); e.p[0].i = ( (long) e.p.size() - 1 ) / 2; break;
            case 504:       // an edge without its curve or without one of its ends is no edge
                for( size_t i = 1; i < e.p.size(); )
                    if( e.p[i].i == k || e.p[i + 1].i == k || e.p[i + 3].i == k ) e.p.erase( e.p.begin() + i, e.p.begin() + i + 5 );
                    else i += 5;
                e.p[0].i = ( (long) e.p.size() - 1 ) / 5;
                break;
            case 508:
                for( size_t i = 1; i < e.p.size(); )
                {
                    size_t len = 5 + 2 * (size_t) e.p[i + 4].i;
                    bool hit = e.p[i + 1].i == k;
                    for( size_t z = 6; z < len; z += 2 ) if( e.p[i + z].i == k ) hit = true;
                    if( hit ) { e.p.erase( e.p.begin() + i, e.p.begin() + i + len ); --e.p[0].i; }
                    else i += len;
                }
                break;
            case 186:
                if( e.p[0].i == k ) e.p[0].i = -1;
                erase( 3, 2 );
                e.p[2].i = ( (long) e.p.size() - 3 ) / 2;
                break;
            default:
                for( auto& v : e.p ) if( v.k == 'p' && v.i == k ) v.i = -1;
        }
    }
    void kill( int k )
    {
        if( n[k].dead ) return;
        for( int q : parents( k ) ) unlink( q, k );
        n[k].dead = true;
        auto& o = d[n[k].doc].order;
        o.erase( std::find( o.begin(), o.end(), k ) );
        if( n[k].p ) of.erase( n[k].p );
        ++kills;
    }
    bool orphan( int k, int nr ) const
    {
        const EntM& e = n[k].e;
        bool lone = nr == 0 && e.sub != 0;
        auto null = [&]( size_t i ) { return e.p[i].i < 0; };
        switch( e.type )
        {
            case 124: case 314: return nr == 0;
            case 502: case 504: case 508: return nr == 0 || e.p[0].i == 0;
            case 510: return nr == 0 || null( 0 ) || e.p[1].i == 0;
            case 186: return null( 0 );
            case 514: return lone || e.p[0].i == 0;
            case 102: return lone || e.p.size() == 1;
            case 120: return lone || null( 0 ) || null( 1 );
            case 122: case 164: case 408: return lone || null( 0 );
            case 142: return lone || null( 1 ) || ( null( 2 ) && null( 3 ) );
            case 144: return lone || null( 0 );
            case 308: return lone || e.p.size() == 3;
            default: return lone;
        }
    }
    struct Copy { std::vector<std::pair<int, Node>> nodes; VI order; int kills; };
    Copy copy( int doc ) const
    {
        Copy c;
        for( int k : d[doc].order ) c.nodes.push_back( { k, n[k] } );
        c.order = d[doc].order; c.kills = kills;
        return c;
    }
    void restore( int doc, const Copy& c )
    {
        for( auto& x : c.nodes ) { n[x.first].e = x.second.e; n[x.first].dead = x.second.dead; if( x.second.p ) of[x.second.p] = x.first; }
        d[doc].order = c.order; kills = c.kills;
    }
    int cull( int doc )
    {
        int c = 0;
        for( bool again = true; again; )
        {
            again = false;
            auto r = refs( doc );
            for( int k : VI( d[doc].order ) )
                if( orphan( k, r[k] ) ) { kill( k ); ++c; again = true; break; }
        }
        return c;
    }
    long depth( int k, int guard = 0 ) const
    {
        long m = 0;
        if( guard > 50 ) return 0;
        const EntM& e = n[k].e;
        for( size_t i = 3; i < e.p.size(); ++i )
        {
            const Node& c = n[e.p[i].i];
            if( c.e.type == 408 && c.e.p[0].i >= 0 ) m = std::max( m, depth( c.e.p[0].i, guard + 1 ) + 1 );
        }
        return m;
    }
    DocM toDoc( int doc, const VI& order ) const
    {
        DocM m;
        m.g = d[doc].g;
        m.start = d[doc].start;
        std::vector<int> to( n.size(), -1 );
        for( size_t i = 0; i < order.size(); ++i ) to[order[i]] = (int) i;
        for( int k : order )
        {
            EntM e = n[k].e;
            if( e.type == 308 ) e.p[0].i = depth( k );
            for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) v.i = to[v.i];
            if( e.xform >= 0 ) e.xform = to[e.xform];
            if( e.colorEnt >= 0 ) e.colorEnt = to[e.colorEnt];
            for( int& x : e.exA ) x = to[x];
            for( int& x : e.exB ) x = to[x];
            m.ents.push_back( e );
        }
        return m;
    }
    bool flat( int k ) const
    {
        const EntM& e = n[k].e;
        auto z = [&]( size_t i ) { return e.p[i].r == 0; };
        switch( e.type )
        {
            case 100: return z( 0 );
            case 104: return z( 6 );
            case 110: return z( 2 ) && z( 5 );
            case 102: for( size_t i = 1; i < e.p.size(); ++i ) if( !flat( (int) e.p[i].i ) ) return false; return true;
            case 126:
            {
                long K = e.p[0].i, M = e.p[1].i;
                for( long j = 0; j <= K; ++j ) if( !z( 6 + K + M + 2 + K + 1 + 3 * j + 2 ) ) return false;
                return true;
            }
        }
        return false;
    }
    void scale( int doc, double f )
    {
        if( f == 1 ) return;
        VI o = d[doc].order;
        DocM m = toDoc( doc, o );
        auto q = Parametric( m );
        for( size_t i = 0; i < o.size(); ++i ) if( !q[i] ) ScaleEnt( n[o[i]].e, f );
    }
    bool opaque( int doc ) const { for( int k : d[doc].order ) if( !n[k].p ) return true; return false; }
};

bool isCurve( int t ) { return t == 100 || t == 102 || t == 104 || t == 110 || t == 126; }
bool isSurf( int t ) { return t == 120 || t == 122 || t == 128; }
bool isBrep( int t ) { return t == 502 || t == 504 || t == 508 || t == 510 || t == 514; }
bool hasHier( int t ) { return t == 102 || t == 308 || t == 408 || t == 180 || t == 186 || t == 508; }

// ---------------------------------------------------------------- building
void setValues( IGES_ENTITY* p, EntM& e )
{
    auto r = [&]( size_t i ) { return e.p[i].r; };
    switch( e.type )
    {
        case 100: { auto* x = static_cast<IGES_ENTITY_100*>( p ); x->zOffset = r( 0 ); x->xCenter = r( 1 ); x->yCenter = r( 2 ); x->xStart = r( 3 ); x->yStart = r( 4 ); x->xEnd = r( 5 ); x->yEnd = r( 6 ); break; }
        case 104: { auto* x = static_cast<IGES_ENTITY_104*>( p ); x->A = r( 0 ); x->B = r( 1 ); x->C = r( 2 ); x->D = r( 3 ); x->E = r( 4 ); x->F = r( 5 ); x->ZT = r( 6 ); x->X1 = r( 7 ); x->Y1 = r( 8 ); x->X2 = r( 9 ); x->Y2 = r( 10 ); break; }
        case 110: { auto* x = static_cast<IGES_ENTITY_110*>( p ); x->X1 = r( 0 ); x->Y1 = r( 1 ); x->Z1 = r( 2 ); x->X2 = r( 3 ); x->Y2 = r( 4 ); x->Z2 = r( 5 ); break; }
        case 120: { auto* x = static_cast<IGES_ENTITY_120*>( p ); x->SA = r( 2 ); x->TA = r( 3 ); break; }
        case 122: { auto* x = static_cast<IGES_ENTITY_122*>( p ); x->LX = r( 1 ); x->LY = r( 2 ); x->LZ = r( 3 ); break; }
        case 124:
        {
            auto* x = static_cast<IGES_ENTITY_124*>( p );
            for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) x->T.R.v[i][j] = r( 4 * i + j );
            x->T.T.x = r( 3 ); x->T.T.y = r( 7 ); x->T.T.z = r( 11 );
            break;
        }
        case 126:
        {
            auto* x = static_cast<IGES_ENTITY_126*>( p );
            long K = e.p[0].i, M = e.p[1].i;
            bool rat = !e.p[4].i;
            std::vector<double> t, c;
            size_t o = 6;
            for( long i = 0; i < K + M + 2; ++i ) t.push_back( r( o++ ) );
            size_t w = o, q = o + K + 1;
            for( long i = 0; i <= K; ++i )
            {
                for( int j = 0; j < 3; ++j ) c.push_back( r( q + 3 * i + j ) );
                if( rat ) c.push_back( r( w + i ) );
            }
            size_t v = q + 3 * ( K + 1 );
            REQUIRE( x->SetNURBSData( K + 1, M + 1, t.data(), c.data(), rat, r( v ), r( v + 1 ) ), "setter-refused", "SetNURBSData() of a curve" );
            // the library determines planarity and normal; closure is not determined
            e.p[3].i = 0; e.p[5].i = 0;
            MCAD_POINT nn;
            bool pl = x->GetNormal( nn );
            e.p[2].i = pl;
            e.p[v + 2].r = pl ? nn.x : 0; e.p[v + 3].r = pl ? nn.y : 0; e.p[v + 4].r = pl ? nn.z : 0;
            break;
        }
        case 128:
        {
            auto* x = static_cast<IGES_ENTITY_128*>( p );
            long K1 = e.p[0].i, K2 = e.p[1].i, M1 = e.p[2].i, M2 = e.p[3].i, N = ( K1 + 1 ) * ( K2 + 1 );
            bool rat = !e.p[6].i;
            std::vector<double> s, t, c;
            size_t o = 9;
            for( long i = 0; i < K1 + M1 + 2; ++i ) s.push_back( r( o++ ) );
            for( long i = 0; i < K2 + M2 + 2; ++i ) t.push_back( r( o++ ) );
            size_t w = o, q = o + N, v = q + 3 * N;
            for( long i = 0; i < N; ++i )
            {
                for( int j = 0; j < 3; ++j ) c.push_back( r( q + 3 * i + j ) );
                if( rat ) c.push_back( r( w + i ) );
            }
            REQUIRE( x->SetNURBSData( K1 + 1, K2 + 1, M1 + 1, M2 + 1, s.data(), t.data(), c.data(), rat, e.p[7].i, e.p[8].i, r( v ), r( v + 1 ), r( v + 2 ), r( v + 3 ) ), "setter-refused", "SetNURBSData() of a surface" );
            e.p[4].i = e.p[7].i; e.p[5].i = e.p[8].i;
            break;
        }
        case 142: { auto* x = static_cast<IGES_ENTITY_142*>( p ); x->CRTN = e.p[0].i; x->PREF = e.p[4].i; break; }
        case 154: { auto* x = static_cast<IGES_ENTITY_154*>( p ); x->H = r( 0 ); x->R = r( 1 ); x->X1 = r( 2 ); x->Y1 = r( 3 ); x->Z1 = r( 4 ); x->I1 = r( 5 ); x->J1 = r( 6 ); x->K1 = r( 7 ); break; }
        case 164: { auto* x = static_cast<IGES_ENTITY_164*>( p ); x->L = r( 1 ); x->I1 = r( 2 ); x->J1 = r( 3 ); x->K1 = r( 4 ); break; }
        case 308: { auto* x = static_cast<IGES_ENTITY_308*>( p ); x->NAME = e.p[1].s; break; }
        case 314:
        {
            auto* x = static_cast<IGES_ENTITY_314*>( p );
            x->red = r( 0 ); x->green = r( 1 ); x->blue = r( 2 );
            x->cname = e.p.size() > 3 ? e.p[3].s : std::string();
            break;
        }
        case 502:
        {
            auto* x = static_cast<IGES_ENTITY_502*>( p );
            for( long i = (long) x->GetNVertices(); i < e.p[0].i; ++i ) x->AddVertex( MCAD_POINT( r( 1 + 3 * i ), r( 2 + 3 * i ), r( 3 + 3 * i ) ) );
            break;
        }
        case 510: static_cast<IGES_ENTITY_510*>( p )->SetOuterLoopFlag( e.p[2].i ); break;
        case 406: REQUIRE( p->SetEntityForm( 15 ) && static_cast<IGES_ENTITY_406*>( p )->SetData( e.p[1].s.c_str() ), "setter-refused", "name property" ); break;
        case 408: { auto* x = static_cast<IGES_ENTITY_408*>( p ); x->X = r( 1 ); x->Y = r( 2 ); x->Z = r( 3 ); x->S = r( 4 ); break; }
    }
}

// the association of parameter i of an entity; -1 removes it
bool setLink( World& w, IGES_ENTITY* p, const EntM& e, size_t i, long c )
{
    IGES_ENTITY* q = c < 0 ? nullptr : w.n[c].p;
    IGES_CURVE* cv = q ? dynamic_cast<IGES_CURVE*>( q ) : nullptr;
    ++w.links;
    switch( e.type )
    {
        case 102: return static_cast<IGES_ENTITY_102*>( p )->AddSegment( cv );
        case 120: return i == 0 ? static_cast<IGES_ENTITY_120*>( p )->SetL( cv ) : static_cast<IGES_ENTITY_120*>( p )->SetC( cv );
        case 122: return static_cast<IGES_ENTITY_122*>( p )->SetDE( cv );
        case 142:
        {
            auto* x = static_cast<IGES_ENTITY_142*>( p );
            return i == 1 ? x->SetSPTR( q ) : i == 2 ? x->SetBPTR( q ) : x->SetCPTR( q );
        }
        case 144:
        {
            auto* x = static_cast<IGES_ENTITY_144*>( p );
            if( i == 0 ) return x->SetPTS( q );
            if( i == 3 ) return x->SetPTO( static_cast<IGES_ENTITY_142*>( q ) );
            return x->AddPTI( static_cast<IGES_ENTITY_142*>( q ) );
        }
        case 164: return static_cast<IGES_ENTITY_164*>( p )->SetClosedCurve( cv );
        case 180: return static_cast<IGES_ENTITY_180*>( p )->AddArg( q );
        case 308: return static_cast<IGES_ENTITY_308*>( p )->AddDE( q );
        case 408: return static_cast<IGES_ENTITY_408*>( p )->SetDE( static_cast<IGES_ENTITY_308*>( q ) );
        case 510:
            if( i == 0 ) return static_cast<IGES_ENTITY_510*>( p )->SetSurface( q );
            return static_cast<IGES_ENTITY_510*>( p )->AddBound( static_cast<IGES_ENTITY_508*>( q ) );
    }
    return false;
}

// one part of an edge list or of a loop, the parameters of which start at position i
bool addEdge( World& w, IGES_ENTITY* p, const std::vector<Val>& v, size_t i )
{
    auto at = [&]( size_t k ) { return v[i + k].i < 0 ? nullptr : w.n[v[i + k].i].p; };
    ++w.links;
    return static_cast<IGES_ENTITY_504*>( p )->AddEdge( at( 0 ), dynamic_cast<IGES_ENTITY_502*>( at( 1 ) ), (int) v[i + 2].i, dynamic_cast<IGES_ENTITY_502*>( at( 3 ) ), (int) v[i + 4].i );
}
bool addPart( World& w, IGES_ENTITY* p, const std::vector<Val>& v, size_t i )
{
    auto at = [&]( size_t k ) { return v[i + k].i < 0 ? nullptr : w.n[v[i + k].i].p; };
    LOOP_DATA* d = new LOOP_DATA;
    d->isVertex = v[i].i; d->data = at( 1 ); d->idx = (int) v[i + 2].i; d->orientFlag = v[i + 3].i;
    for( long z = 0; z < v[i + 4].i; ++z ) d->pcurves.push_back( new LOOP_PAIR( v[i + 5 + 2 * z].i, at( 6 + 2 * z ) ) );
    ++w.links;
    if( static_cast<IGES_ENTITY_508*>( p )->AddEdge( d ) ) return true;
    // what was refused still belongs to the caller
    for( auto* x : d->pcurves ) delete x;
    delete d;
    return false;
}
// there is no function which adds a face to a shell; the list of faces is public
bool addFace( World& w, IGES_ENTITY* p, int c, bool flag )
{
    bool dup = false;
    auto* f = static_cast<IGES_ENTITY_510*>( w.n[c].p );
    if( !f->addReference( p, dup ) || dup ) return false;
    static_cast<IGES_ENTITY_514*>( p )->mfaces.push_back( { f, flag } );
    ++w.links;
    return true;
}
bool setsDep( int t ) { return t == 102 || t == 120 || t == 122 || t == 142 || t == 144 || t == 164 || t == 308; }

#define OK( x, what ) REQUIRE( x, "setter-refused", strf( "entity %d: %s", e.type, what ) )
void setAttrs( World& w, IGES_ENTITY* p, EntM& e, int grad )
{
    int t = e.type;
    if( t == 308 ) { e.blank = 0; e.use = 2; }
    if( t == 124 || t == 314 ) { e.lineFont = 0; e.level = 0; e.blank = 0; e.sub = 0; e.use = t == 314 ? 2 : 0; e.hier = 0; e.weight = 0; if( t == 124 ) { e.color = 0; e.colorEnt = -1; } else e.xform = -1; }
    if( t == 142 || t == 144 || t == 154 || t == 164 || t == 180 ) e.use = 0;
    if( isBrep( t ) )
    {
        e.lineFont = 0; e.weight = 0; e.color = 0; e.colorEnt = -1; e.xform = -1; e.use = 0;
        if( t != 514 ) e.sub = 1;
    }
    if( !hasHier( t ) ) e.hier = t == 504 ? 1 : 0;
    if( e.weight > grad ) e.weight = grad;
    if( e.form && t != 104 && t != 406 ) OK( p->SetEntityForm( e.form ), "form" );
    if( e.lineFont ) OK( p->SetLineFontPattern( (IGES_LINEFONT_PATTERN) e.lineFont ), "line font" );
    if( e.level ) OK( p->SetLevel( (int) e.level ), "level" );
    if( e.colorEnt >= 0 ) { OK( p->SetColor( w.n[e.colorEnt].p ), "colour entity" ); e.color = 0; ++w.links; }
    else if( e.color ) OK( p->SetColor( (IGES_COLOR) e.color ), "colour" );
    if( e.xform >= 0 ) { OK( p->SetTransform( w.n[e.xform].p ), "transform" ); ++w.links; }
    if( e.blank ) OK( p->SetVisibility( false ), "visibility" );
    if( e.use && t != 308 && t != 314 ) OK( p->SetEntityUse( (IGES_STAT_USE) e.use ), "use" );
    if( e.hier ) OK( p->SetHierarchy( (IGES_STAT_HIER) e.hier ), "hierarchy" );
    if( e.weight ) OK( p->SetLineWeightNum( e.weight ), "line weight" );
    if( !e.label.empty() ) OK( p->SetLabel( e.label ), "label" );
    if( e.subscript ) OK( p->SetEntitySubscript( (int) e.subscript ), "subscript" );
    for( auto& c : e.comments ) OK( p->AddComment( c ), "comment" );
    for( int x : e.exB ) { OK( p->AddOptionalEntity( w.n[x].p ), "optional entity" ); ++w.links; }
    if( t != 124 && t != 314 ) OK( p->SetDependency( (IGES_STAT_DEPENDS) e.sub ), "dependency" );
}
#undef OK

void setGlobals( DocW& D, const GlobM& src, long units, double scale )
{
    GlobM g = src;
    g.units = units; g.unitName = UNAME[units]; g.scale = scale;
    if( g.minRes > 1e-5 ) g.minRes = 1e-5;
    long p = 1;
    while( p * 2 <= g.gradations ) p *= 2;
    g.gradations = p;
    auto& G = D.doc->globalData;
    G.pdelim = g.pd; G.rdelim = g.rd;
    G.productIDSS = g.sender; G.nativeSystemID = g.system; G.productIDRS = g.receiver;
    G.fileName = g.file;
    G.modelScale = g.scale; G.unitsFlag = (IGES_UNIT) g.units; G.unitsName = g.unitName;
    G.maxLinewidthGrad = (int) g.gradations; G.maxLinewidth = g.maxWidth;
    G.minResolution = g.minRes;
    G.author = g.author; G.organization = g.org; G.applicationNote = g.proto;
    G.draftStandard = (IGES_DRAFTING_STANDARD) g.draft;
    G.creationDate = g.date;
    D.g = g;
}

GenOpt apiOpt( const Op& op )
{
    GenOpt o;
    o.maxRoots = std::max( 1L, op.num( "n", 4 ) );
    o.api = true; o.brep = false; o.paramArc = false; o.shells = true;
    return o;
}

void build( World& w, const Op& op )
{
    int di = op.num( "doc" ) % NDOC;
    DocW& D = w.d[di];
    Rng r( op.u64( "seed" ) );
    DocM m = GenDoc( r, apiOpt( op ) );
    if( D.order.empty() )
    {
        static const long U[3] = { 2, 1, 10 };
        static const double S[3] = { 1, 2, 0.5 };
        setGlobals( D, m.g, U[op.num( "units" ) % 3], S[op.num( "scale" ) % 3] );
        for( auto& s : m.start )
        {
            const char* cp = s.c_str();
            REQUIRE( D.doc->AddToHeader( cp ), "setter-refused", "AddToHeader()" );
            D.start.push_back( s );
        }
    }
    if( op.has( "noname" ) ) { D.doc->globalData.fileName.clear(); D.g.file.clear(); }
    size_t cnt = m.ents.size();
    std::vector<char> referenced( cnt, 0 ), linksOut( cnt, 0 );
    for( size_t i = 0; i < cnt; ++i )
    {
        auto& e = m.ents[i];
        for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) { referenced[v.i] = 1; linksOut[i] = 1; }
        if( e.xform >= 0 ) { referenced[e.xform] = 1; linksOut[i] = 1; }
        if( e.colorEnt >= 0 ) { referenced[e.colorEnt] = 1; linksOut[i] = 1; }
        for( int x : e.exB ) { referenced[x] = 1; linksOut[i] = 1; }
    }
    // create everything in random order
    VI ord( cnt ), id( cnt, -1 );
    for( size_t i = 0; i < cnt; ++i ) ord[i] = (int) i;
    for( size_t i = cnt; i > 1; --i ) std::swap( ord[i - 1], ord[r.below( i )] );
    std::vector<IGES_ENTITY*> ptr( cnt, nullptr );
    VI late;            // belong to no document until something refers to them
    for( int i : ord )
    {
        EntM& e = m.ents[i];
        IGES_ENTITY* p = nullptr;
        bool alone = referenced[i] && !linksOut[i] && e.weight == 0 && ( e.type == 110 || e.type == 100 || e.type == 126 || e.type == 154 || e.type == 124 ) && r.chance( 1, 4 );
        if( alone )
        {
            switch( e.type )
            {
                case 110: p = new IGES_ENTITY_110( nullptr ); break;
                case 100: p = new IGES_ENTITY_100( nullptr ); break;
                case 126: p = new IGES_ENTITY_126( nullptr ); break;
                case 154: p = new IGES_ENTITY_154( nullptr ); break;
                case 124: p = new IGES_ENTITY_124( nullptr ); break;
            }
            late.push_back( i );
        }
        else REQUIRE( D.doc->NewEntity( e.type, &p ) && p, "create-refused", strf( "NewEntity( %d )", e.type ) );
        REQUIRE( p->GetEntityType() == e.type, "create-refused", strf( "NewEntity( %d ) created type %d", e.type, p->GetEntityType() ) );
        ptr[i] = p;
        id[i] = w.add( di, EntM(), nullptr );
        w.attach( id[i], p );
    }
    for( int i : ord )
    {
        EntM e = m.ents[i];
        for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) v.i = id[v.i];
        if( e.xform >= 0 ) e.xform = id[e.xform];
        if( e.colorEnt >= 0 ) e.colorEnt = id[e.colorEnt];
        for( int& x : e.exA ) x = id[x];
        for( int& x : e.exB ) x = id[x];
        setValues( ptr[i], e );
        w.n[id[i]].e = e;
    }
    // associations, children before parents
    std::vector<char> done( cnt, 0 );
    std::function<void( int )> link = [&]( int i )
    {
        if( done[i] ) return;
        done[i] = 1;
        for( auto& v : m.ents[i].p ) if( v.k == 'p' && v.i >= 0 ) link( (int) v.i );
        EntM& e = w.n[id[i]].e;
        auto done1 = [&]( bool ok ) { REQUIRE( ok, "link-refused", strf( "entity %d", e.type ) ); };
        if( e.type == 504 ) { for( size_t k = 1; k < e.p.size(); k += 5 ) done1( addEdge( w, ptr[i], e.p, k ) ); return; }
        if( e.type == 508 ) { for( size_t k = 1; k < e.p.size(); k += 5 + 2 * (size_t) e.p[k + 4].i ) done1( addPart( w, ptr[i], e.p, k ) ); return; }
        if( e.type == 514 ) { for( size_t k = 1; k < e.p.size(); k += 2 ) done1( addFace( w, ptr[i], (int) e.p[k].i, e.p[k + 1].i ) ); return; }
        for( size_t k = 0; k < e.p.size(); ++k )
        {
            if( e.type == 180 && k > 0 && e.p[k].k == 'i' )
                REQUIRE( static_cast<IGES_ENTITY_180*>( ptr[i] )->AddOp( (BTREE_OPERATOR) e.p[k].i ), "setter-refused", "AddOp()" );
            if( e.p[k].k != 'p' || e.p[k].i < 0 ) continue;
            bool ok = setLink( w, ptr[i], e, k, e.p[k].i );
            REQUIRE( ok, "link-refused", strf( "entity %d parameter %zu: entity %d", e.type, k, w.n[e.p[k].i].e.type ) );
        }
    };
    for( int i : ord ) link( i );
    for( int i : ord ) setAttrs( w, ptr[i], w.n[id[i]].e, (int) D.g.gradations );
    for( int i : late )
        REQUIRE( ptr[i]->GetParentIGES() == D.doc.get(), "not-adopted", strf( "an entity (type %d) associated with one of the document is not part of the document", m.ents[i].type ) );
    trace( strf( "build %zu", cnt ) );
}

// ---------------------------------------------------------------- reading back through the interface
long idOf( World& w, IGES_ENTITY* p, int k, const char* what )
{
    if( !p ) return -1;
    auto i = w.of.find( p );
    if( i == w.of.end() )
    {
        // entities read from a file may hold children which are not known yet
        if( w.opaque( w.n[k].doc ) ) return -2;
        fail( "dangling", strf( "entity %d (#%d): %s refers to an entity that no longer exists", w.n[k].e.type, k, what ) );
    }
    return i->second;
}

std::string near( double a, double b )
{
    if( std::fabs( a - b ) <= 1e-10 + 2e-12 * std::max( std::fabs( a ), std::fabs( b ) ) ) return "";
    return strf( "%.17g instead of %.17g", b, a );
}

// children of a live entity as the interface reports them, in the order of the
// model's parameters; 'd' where there is no getter
std::vector<Val> readP( World& w, int k )
{
    Node& N = w.n[k];
    IGES_ENTITY* p = N.p;
    std::vector<Val> o;
    auto R = [&]( double v ) { o.push_back( Val::R( v ) ); };
    auto I = [&]( long v ) { o.push_back( Val::I( v ) ); };
    auto P = [&]( IGES_ENTITY* q, const char* what ) { o.push_back( Val::P( idOf( w, q, k, what ) ) ); };
    auto Dv = [&]() { o.push_back( Val() ); };
    switch( N.e.type )
    {
        case 100: { auto* x = static_cast<IGES_ENTITY_100*>( p ); for( double v : { x->ZT, x->X1, x->Y1, x->X2, x->Y2, x->X3, x->Y3 } ) R( v ); break; }
        case 102:
        {
            auto* x = static_cast<IGES_ENTITY_102*>( p );
            I( x->GetNCurves() );
            for( int i = 0; i < x->GetNCurves(); ++i ) P( x->GetCurve( i ), "a segment" );
            break;
        }
        case 104: { auto* x = static_cast<IGES_ENTITY_104*>( p ); for( double v : { x->A, x->B, x->C, x->D, x->E, x->F, x->ZT, x->X1, x->Y1, x->X2, x->Y2 } ) R( v ); break; }
        case 110: { auto* x = static_cast<IGES_ENTITY_110*>( p ); for( double v : { x->X1, x->Y1, x->Z1, x->X2, x->Y2, x->Z2 } ) R( v ); break; }
        case 120:
        {
            auto* x = static_cast<IGES_ENTITY_120*>( p );
            IGES_CURVE *a = nullptr, *b = nullptr;
            x->GetL( &a ); x->GetC( &b );
            P( a, "the axis" ); P( b, "the generatrix" ); R( x->startAngle ); R( x->endAngle );
            break;
        }
        case 122:
        {
            auto* x = static_cast<IGES_ENTITY_122*>( p );
            IGES_CURVE* a = nullptr;
            x->GetDE( a );
            P( a, "the directrix" ); R( x->LX ); R( x->LY ); R( x->LZ );
            break;
        }
        case 124:
        {
            auto* x = static_cast<IGES_ENTITY_124*>( p );
            double tv[3] = { x->T.T.x, x->T.T.y, x->T.T.z };
            for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) R( x->T.R.v[i][j] ); R( tv[i] ); }
            break;
        }
        case 126:
        {
            auto* x = static_cast<IGES_ENTITY_126*>( p );
            int nc = 0, od = 0; double *t = nullptr, *c = nullptr, a = 0, b = 0; bool rat = 0, cl = 0, pe = 0;
            REQUIRE( x->GetNURBSData( nc, od, &t, &c, rat, cl, pe, a, b ), "getter", "GetNURBSData() of a curve failed" );
            I( nc - 1 ); I( od - 1 ); I( x->IsPlanar() ); I( cl ); I( !rat ); I( pe );
            for( int i = 0; i < nc + od; ++i ) R( t[i] );
            int st = rat ? 4 : 3;
            for( int i = 0; i < nc; ++i ) R( rat ? c[4 * i + 3] : 1 );
            for( int i = 0; i < nc; ++i ) for( int j = 0; j < 3; ++j ) R( c[st * i + j] );
            R( a ); R( b ); Dv(); Dv(); Dv();
            break;
        }
        case 128:
        {
            auto* x = static_cast<IGES_ENTITY_128*>( p );
            int n1, n2, o1, o2; double *s = nullptr, *t = nullptr, *c = nullptr, u0, u1, v0, v1; bool rat, c1, c2, p1, p2;
            REQUIRE( x->GetNURBSData( n1, n2, o1, o2, &s, &t, &c, rat, c1, c2, p1, p2, u0, u1, v0, v1 ), "getter", "GetNURBSData() of a surface failed" );
            I( n1 - 1 ); I( n2 - 1 ); I( o1 - 1 ); I( o2 - 1 ); I( c1 ); I( c2 ); I( !rat ); I( p1 ); I( p2 );
            for( int i = 0; i < n1 + o1; ++i ) R( s[i] );
            for( int i = 0; i < n2 + o2; ++i ) R( t[i] );
            int N2 = n1 * n2, st = rat ? 4 : 3;
            for( int i = 0; i < N2; ++i ) R( rat ? c[4 * i + 3] : 1 );
            for( int i = 0; i < N2; ++i ) for( int j = 0; j < 3; ++j ) R( c[st * i + j] );
            R( u0 ); R( u1 ); R( v0 ); R( v1 );
            break;
        }
        case 142:
        {
            auto* x = static_cast<IGES_ENTITY_142*>( p );
            IGES_ENTITY *a = nullptr, *b = nullptr, *c = nullptr;
            x->GetSPTR( &a ); x->GetBPTR( &b ); x->GetCPTR( &c );
            I( x->CRTN ); P( a, "the surface" ); P( b, "the curve in parameter space" ); P( c, "the curve in model space" ); Dv();
            break;
        }
        case 144:
        {
            auto* x = static_cast<IGES_ENTITY_144*>( p );
            IGES_ENTITY* a = nullptr; IGES_ENTITY_142* b = nullptr;
            x->GetPTS( a ); x->GetPTO( b );
            P( a, "the surface" );
            I( x->N1 ); I( x->N2 );
            P( b, "the outer boundary" );
            REQUIRE( x->GetNPTI() == x->N2, "getter", strf( "GetNPTI() %d, N2 %d", x->GetNPTI(), x->N2 ) );
            size_t ls = 77; IGES_ENTITY_142** lp = nullptr;
            bool any = x->GetPTIList( ls, lp );
            REQUIRE( any == ( x->GetNPTI() > 0 ) && ls == (size_t) x->GetNPTI(), "getter", "GetPTIList() and GetNPTI() disagree" );
            for( int i = 0; i < x->GetNPTI(); ++i )
            {
                REQUIRE( x->GetPTI( i ) == lp[i], "getter", "GetPTIList() and GetPTI() disagree" );
                P( lp[i], "an inner boundary" );
            }
            break;
        }
        case 154: { auto* x = static_cast<IGES_ENTITY_154*>( p ); for( double v : { x->H, x->R, x->X1, x->Y1, x->Z1, x->I1, x->J1, x->K1 } ) R( v ); break; }
        case 164:
        {
            auto* x = static_cast<IGES_ENTITY_164*>( p );
            IGES_CURVE* a = nullptr;
            x->GetClosedCurve( &a );
            P( a, "the closed curve" ); R( x->L ); R( x->I1 ); R( x->J1 ); R( x->K1 );
            break;
        }
        case 180:
        {
            auto* x = static_cast<IGES_ENTITY_180*>( p );
            I( x->GetNNodes() );
            for( int i = 0; i < x->GetNNodes(); ++i )
            {
                BTREE_NODE* b = x->GetNode( i );
                REQUIRE( b, "getter", "GetNode() returned nothing" );
                if( b->op ) I( b->val ); else P( b->pEnt, "an operand" );
            }
            break;
        }
        case 308:
        {
            auto* x = static_cast<IGES_ENTITY_308*>( p );
            size_t ls = 77; IGES_ENTITY** lp = nullptr;
            bool any = x->GetDEList( ls, lp );
            REQUIRE( any == ( ls > 0 ), "getter", "GetDEList()" );
            Dv(); o.push_back( Val::S( x->NAME ) ); I( (long) ls );
            for( size_t i = 0; i < ls; ++i ) P( lp[i], "a member" );
            REQUIRE( x->N == (int) ls, "getter", strf( "N is %d with %zu members", x->N, ls ) );
            break;
        }
        case 314: { auto* x = static_cast<IGES_ENTITY_314*>( p ); R( x->red ); R( x->green ); R( x->blue ); if( !x->cname.empty() ) o.push_back( Val::S( x->cname ) ); break; }
        case 406:
        {
            Dv();
            const std::string* s = static_cast<const std::string*>( static_cast<IGES_ENTITY_406*>( p )->GetData() );
            REQUIRE( s, "getter", "name property has no data" );
            o.push_back( Val::S( *s ) );
            break;
        }
        case 408:
        {
            auto* x = static_cast<IGES_ENTITY_408*>( p );
            IGES_ENTITY_308* a = nullptr;
            x->GetDE( a );
            P( a, "the definition" ); R( x->X ); R( x->Y ); R( x->Z ); R( x->S );
            break;
        }
        case 502:
        {
            auto* x = static_cast<IGES_ENTITY_502*>( p );
            size_t ls = 77; const MCAD_POINT* lp = nullptr;
            bool any = x->GetVertices( ls, lp );
            REQUIRE( any == ( ls > 0 ) && ls == x->GetNVertices(), "getter", "GetVertices() and GetNVertices() disagree" );
            I( (long) ls );
            for( size_t i = 0; i < ls; ++i ) { R( lp[i].x ); R( lp[i].y ); R( lp[i].z ); }
            break;
        }
        case 504:
        {
            auto* x = static_cast<IGES_ENTITY_504*>( p );
            size_t ls = 77; const EDGE_DATA* lp = nullptr;
            bool any = x->GetEdges( ls, lp );
            REQUIRE( any == ( ls > 0 ), "getter", "GetEdges()" );
            I( (long) ls );
            for( size_t i = 0; i < ls; ++i ) { P( lp[i].curv, "the curve of an edge" ); P( lp[i].svp, "the list with the start of an edge" ); I( lp[i].sv ); P( lp[i].tvp, "the list with the end of an edge" ); I( lp[i].tv ); }
            break;
        }
        case 508:
        {
            auto* x = static_cast<IGES_ENTITY_508*>( p );
            size_t ls = 77; LOOP_DATA** lp = nullptr;
            bool any = x->GetLoopData( ls, lp );
            REQUIRE( any == ( ls > 0 ), "getter", "GetLoopData()" );
            I( (long) ls );
            for( size_t i = 0; i < ls; ++i )
            {
                size_t np = 77; LOOP_PAIR** pp = nullptr;
                any = lp[i]->GetPCurves( np, pp );
                REQUIRE( any == ( np > 0 ), "getter", "GetPCurves()" );
                I( lp[i]->isVertex ); P( lp[i]->data, "the list of a part of the loop" ); I( lp[i]->idx ); I( lp[i]->orientFlag ); I( (long) np );
                for( size_t z = 0; z < np; ++z ) { I( pp[z]->orientFlag ); P( pp[z]->curve, "a curve in parameter space" ); }
            }
            break;
        }
        case 510:
        {
            auto* x = static_cast<IGES_ENTITY_510*>( p );
            size_t ls = 77; IGES_ENTITY_508** lp = nullptr;
            bool any = x->GetBounds( ls, lp );
            REQUIRE( any == ( ls > 0 ), "getter", "GetBounds()" );
            P( x->GetSurface(), "the surface" ); I( (long) ls ); I( x->GetOuterLoopFlag() );
            for( size_t i = 0; i < ls; ++i ) P( lp[i], "a loop" );
            break;
        }
        case 514:
        {
            auto& f = static_cast<IGES_ENTITY_514*>( p )->mfaces;
            I( (long) f.size() );
            for( auto& z : f ) { P( z.first, "a face" ); I( z.second ); }
            break;
        }
        default: for( size_t i = 0; i < N.e.p.size(); ++i ) Dv();
    }
    return o;
}

void checkNode( World& w, int k, const std::vector<int>& refs )
{
    Node& N = w.n[k];
    const EntM& e = N.e;
    IGES_ENTITY* p = N.p;
    auto bad = [&]( const char* what, const std::string& d ) { fail( what, strf( "entity %d (#%d): ", e.type, k ) + d ); };
    if( !p ) return;
    if( p->GetParentIGES() != w.d[N.doc].doc.get() ) bad( "owner", "GetParentIGES() is not the document it was put into" );
    if( p->GetEntityType() != e.type ) bad( "type", strf( "type is now %d", p->GetEntityType() ) );
    auto got = readP( w, k );
    bool same = got.size() == e.p.size() || ( e.type == 314 && got.size() == 3 );
    if( !same ) bad( "association", strf( "%zu parameters instead of %zu", got.size(), e.p.size() ) );
    for( size_t i = 0; i < got.size(); ++i )
    {
        const Val &a = e.p[i], &b = got[i];
        if( b.k == 'd' || a.k == 'd' ) continue;
        if( b.k != a.k ) bad( "association", strf( "parameter %zu changed its kind", i ) );
        switch( a.k )
        {
            case 'i': if( a.i != b.i ) bad( "value", strf( "parameter %zu is %ld instead of %ld", i, b.i, a.i ) ); break;
            case 'r': { std::string s = near( a.r, b.r ); if( !s.empty() ) bad( "value", strf( "parameter %zu is ", i ) + s ); break; }
            case 's': if( a.s != b.s ) bad( "value", "text '" + b.s + "' instead of '" + a.s + "'" ); break;
            case 'p':
                if( b.i == -2 ) { if( a.i < 0 || w.n[a.i].p ) bad( "association", strf( "parameter %zu refers to an unknown entity", i ) ); }
                else if( a.i != b.i ) bad( "association", strf( "parameter %zu refers to #%ld instead of #%ld", i, b.i, a.i ) );
                break;
        }
    }
    int nr = (int) p->getNRefs();
    if( nr != refs[k] ) bad( "reference-count", strf( "%d parents instead of %d", nr, refs[k] ) );
    IGES_ENTITY* q = nullptr;
    p->GetTransform( &q );
    long x = idOf( w, q, k, "the transform" );
    if( x != -2 && x != e.xform ) bad( "association", strf( "transform #%ld instead of #%d", x, e.xform ) );
    q = nullptr; p->GetColorEntity( &q );
    x = idOf( w, q, k, "the colour" );
    if( x != -2 && x != e.colorEnt ) bad( "association", strf( "colour #%ld instead of #%d", x, e.colorEnt ) );
    size_t nx = e.exA.size() + e.exB.size();
    if( (size_t) p->GetNOptionalEntities() != nx ) bad( "association", strf( "%d optional entities instead of %zu", p->GetNOptionalEntities(), nx ) );
    size_t ls = 77; IGES_ENTITY** lp = nullptr;
    bool any = p->GetOptionalEntities( ls, lp );
    if( any != ( nx > 0 ) || ls != nx ) bad( "getter", "GetOptionalEntities() and GetNOptionalEntities() disagree" );
    for( size_t i = 0; i < nx; ++i )
    {
        if( p->GetOptionalEntity( i ) != lp[i] ) bad( "getter", "GetOptionalEntities() and GetOptionalEntity() disagree" );
        long y = idOf( w, lp[i], k, "an optional entity" );
        int want = i < e.exA.size() ? e.exA[i] : e.exB[i - e.exA.size()];
        if( y != -2 && y != want ) bad( "association", strf( "optional entity #%ld instead of #%d", y, want ) );
    }
    // no entity which could be a view, a label display, a level or a line font can be part of a document
    IGES_ENTITY* none = p;
    if( p->GetView( &none ) || none ) bad( "association", "a view appeared from nowhere" );
    none = p; if( p->GetLabelAssoc( &none ) || none ) bad( "association", "a label display appeared from nowhere" );
    none = p; if( p->GetLevelEntity( &none ) || none ) bad( "association", "a level entity appeared from nowhere" );
    none = p; if( p->GetLineFontPatternEntity( &none ) != ( e.lineFont == 0 ) || none ) bad( "getter", "GetLineFontPatternEntity() is wrong" );
    none = p; if( p->GetStructure( &none ) || none ) bad( "association", "a structure appeared from nowhere" );
    none = p; if( p->GetColorEntity( &none ) != ( e.colorEnt >= 0 || e.color == 0 ) || ( none != nullptr ) != ( e.colorEnt >= 0 ) ) bad( "getter", "GetColorEntity() disagrees with its result" );
    none = p; if( p->GetTransform( &none ) != ( e.xform >= 0 ) || ( none != nullptr ) != ( e.xform >= 0 ) ) bad( "getter", "GetTransform() disagrees with its result" );
    IGES_COLOR co = COLOR_NONE; IGES_LINEFONT_PATTERN lf = (IGES_LINEFONT_PATTERN) 0; int lv = 0, lw = 0, ss = 0; bool vis = true;
    IGES_STAT_DEPENDS de = STAT_INDEPENDENT; IGES_STAT_USE us = STAT_USE_GEOMETRY; IGES_STAT_HIER hi = STAT_HIER_ALL_SUB;
    if( e.colorEnt < 0 ) { p->GetColor( co ); if( (int) co != e.color ) bad( "attribute", strf( "colour %d instead of %d", (int) co, e.color ) ); }
    p->GetLineFontPattern( lf ); if( (int) lf != e.lineFont ) bad( "attribute", strf( "line font %d instead of %ld", (int) lf, e.lineFont ) );
    p->GetLevel( lv ); if( lv != e.level ) bad( "attribute", strf( "level %d instead of %ld", lv, e.level ) );
    p->GetLineWeightNum( lw ); if( lw != e.weight ) bad( "attribute", strf( "line weight %d instead of %d", lw, e.weight ) );
    p->GetEntitySubscript( ss ); if( ss != e.subscript ) bad( "attribute", strf( "subscript %d instead of %ld", ss, e.subscript ) );
    std::string lb; p->GetLabel( lb ); if( lb != e.label ) bad( "attribute", "label '" + lb + "' instead of '" + e.label + "'" );
    p->GetVisibility( vis ); if( vis == ( e.blank != 0 ) ) bad( "attribute", "visibility" );
    p->GetDependency( de ); if( (int) de != e.sub ) bad( "attribute", strf( "dependency %d instead of %d", (int) de, e.sub ) );
    p->GetEntityUse( us ); if( e.type != 314 && e.type != 308 && (int) us != e.use ) bad( "attribute", strf( "use %d instead of %d", (int) us, e.use ) );
    p->GetHierarchy( hi ); if( (int) hi != e.hier ) bad( "attribute", strf( "hierarchy %d instead of %d", (int) hi, e.hier ) );
    if( e.type != 104 && p->GetEntityForm() != e.form ) bad( "attribute", strf( "form %d instead of %d", p->GetEntityForm(), e.form ) );
    if( N.opaque )
    {
        // comments of a file come back padded to the width of the line
        std::string a, b;
        auto put = []( std::string& s, const std::string& t ) { for( char c : t ) if( c != ' ' ) s += c; };
        for( auto& c : e.comments ) put( a, c );
        for( int i = 0; i < p->GetNComments(); ++i ) put( b, p->GetComment( i ) );
        if( a != b ) bad( "attribute", "comments '" + b + "' instead of '" + a + "'" );
    }
    else
    {
        if( p->GetNComments() != (int) e.comments.size() ) bad( "attribute", strf( "%d comments instead of %zu", p->GetNComments(), e.comments.size() ) );
        for( size_t i = 0; i < e.comments.size(); ++i )
            if( e.comments[i] != p->GetComment( i ) ) bad( "attribute", "comment '" + std::string( p->GetComment( i ) ) + "' instead of '" + e.comments[i] + "'" );
    }
}

void checkAll( World& w )
{
    for( size_t k = 0; k < w.n.size(); ++k )
    {
        Node& N = w.n[k];
        if( !N.p ) continue;
        REQUIRE( N.flag != N.dead, "lifetime", strf( "entity %d (#%zu) is %s but its validity flag says %s", N.e.type, k, N.dead ? "deleted" : "alive", N.flag ? "valid" : "invalid" ) );
    }
    for( int k : w.loose )
    {
        REQUIRE( !w.n[k].p->GetParentIGES(), "owner", strf( "entity %d, which was taken out of its document, still has one", w.n[k].e.type ) );
        REQUIRE( w.n[k].p->getNRefs() == 0, "reference-count", strf( "entity %d, which was taken out of its document, has parents", w.n[k].e.type ) );
    }
    for( int di = 0; di < NDOC; ++di )
    {
        auto r = w.refs( di );
        for( int k : w.d[di].order ) checkNode( w, k, r );
        auto& G = w.d[di].doc->globalData;
        REQUIRE( (int) G.unitsFlag == w.d[di].g.units && G.modelScale == w.d[di].g.scale, "units", strf( "document %d: units %d scale %g instead of %ld and %g", di, (int) G.unitsFlag, G.modelScale, w.d[di].g.units, w.d[di].g.scale ) );
    }
}

// entities read from a file which have become accessible through their parents
void discover( World& w, int k )
{
    VI todo{ k };
    std::set<int> seen;
    while( !todo.empty() )
    {
        int q = todo.back(); todo.pop_back();
        if( !seen.insert( q ).second || !w.n[q].p ) continue;
        auto know = [&]( IGES_ENTITY* p, long c, const char* what )
        {
            if( c < 0 ) { REQUIRE( !p, "association", strf( "entity %d: %s appeared from nowhere", w.n[q].e.type, what ) ); return; }
            REQUIRE( p, "association", strf( "entity %d: %s is gone", w.n[q].e.type, what ) );
            if( !w.n[c].p )
            {
                REQUIRE( !w.of.count( p ), "association", strf( "entity %d: %s is another entity", w.n[q].e.type, what ) );
                REQUIRE( p->GetEntityType() == w.n[c].e.type, "association", strf( "entity %d: %s has type %d instead of %d", w.n[q].e.type, what, p->GetEntityType(), w.n[c].e.type ) );
                w.attach( (int) c, p );
                ++g_stats.probes["entity-of-file-reached"];
            }
            todo.push_back( (int) c );
        };
        Node& N = w.n[q];
        EntM& e = N.e;
        IGES_ENTITY* t = nullptr;
        N.p->GetTransform( &t ); know( t, e.xform, "the transform" );
        t = nullptr; N.p->GetColorEntity( &t ); know( t, e.colorEnt, "the colour" );
        for( size_t i = 0; i < e.exA.size() + e.exB.size(); ++i )
            know( N.p->GetOptionalEntity( (int) i ), i < e.exA.size() ? e.exA[i] : e.exB[i - e.exA.size()], "an optional entity" );
        switch( e.type )
        {
            case 102: { auto* x = static_cast<IGES_ENTITY_102*>( N.p ); REQUIRE( x->GetNCurves() == (int) e.p.size() - 1, "association", "number of segments" ); for( size_t i = 1; i < e.p.size(); ++i ) know( x->GetCurve( i - 1 ), e.p[i].i, "a segment" ); break; }
            case 120: { auto* x = static_cast<IGES_ENTITY_120*>( N.p ); IGES_CURVE *a = nullptr, *b = nullptr; x->GetAxis( &a ); x->GetGeneratrix( &b ); know( a, e.p[0].i, "the axis" ); know( b, e.p[1].i, "the generatrix" ); break; }
            case 122: { auto* x = static_cast<IGES_ENTITY_122*>( N.p ); IGES_CURVE* a = nullptr; x->GetDE( a ); know( a, e.p[0].i, "the directrix" ); break; }
            case 142:
            {
                auto* x = static_cast<IGES_ENTITY_142*>( N.p );
                IGES_ENTITY *a = nullptr, *b = nullptr, *c = nullptr;
                x->GetSPTR( &a ); x->GetBPTR( &b ); x->GetCPTR( &c );
                know( a, e.p[1].i, "the surface" ); know( b, e.p[2].i, "the parametric curve" ); know( c, e.p[3].i, "the model curve" );
                break;
            }
            case 144:
            {
                auto* x = static_cast<IGES_ENTITY_144*>( N.p );
                IGES_ENTITY* a = nullptr; IGES_ENTITY_142* b = nullptr;
                x->GetPTS( a ); x->GetPTO( b );
                know( a, e.p[0].i, "the surface" ); know( b, e.p[3].i, "the outer boundary" );
                REQUIRE( x->GetNPTI() == (int) e.p.size() - 4, "association", "number of inner boundaries" );
                for( size_t i = 4; i < e.p.size(); ++i ) know( x->GetPTI( i - 4 ), e.p[i].i, "an inner boundary" );
                break;
            }
            case 164: { auto* x = static_cast<IGES_ENTITY_164*>( N.p ); IGES_CURVE* a = nullptr; x->GetClosedCurve( &a ); know( a, e.p[0].i, "the closed curve" ); break; }
            case 180:
            {
                auto* x = static_cast<IGES_ENTITY_180*>( N.p );
                REQUIRE( x->GetNNodes() == (int) e.p.size() - 1, "association", "number of nodes" );
                for( size_t i = 1; i < e.p.size(); ++i ) if( e.p[i].k == 'p' ) know( x->GetNode( i - 1 )->pEnt, e.p[i].i, "an operand" );
                break;
            }
            case 308:
            {
                auto* x = static_cast<IGES_ENTITY_308*>( N.p );
                size_t ls = 0; IGES_ENTITY** lp = nullptr;
                x->GetDEList( ls, lp );
                REQUIRE( ls == e.p.size() - 3, "association", strf( "a subfigure has %zu members instead of %zu", ls, e.p.size() - 3 ) );
                std::vector<IGES_ENTITY*> l( lp, lp + ls );
                for( size_t i = 0; i < ls; ++i ) know( l[i], e.p[i + 3].i, "a member" );
                break;
            }
            case 408: { auto* x = static_cast<IGES_ENTITY_408*>( N.p ); IGES_ENTITY_308* a = nullptr; x->GetDE( a ); know( a, e.p[0].i, "the definition" ); break; }
        }
    }
}

// ---------------------------------------------------------------- operations
// the i-th live entity (of all documents) which satisfies a predicate
int choose( World& w, long i, const std::function<bool( int )>& ok )
{
    VI c;
    for( int di = 0; di < NDOC; ++di ) for( int k : w.d[di].order ) if( w.n[k].p && ok( k ) ) c.push_back( k );
    if( c.empty() ) return -1;
    return c[( i < 0 ? -i : i ) % (long) c.size()];
}
int choose( World& w, long i, int doc, const std::function<bool( int )>& ok )
{
    return choose( w, i, [&]( int k ) { return w.n[k].doc == doc && ok( k ); } );
}

// an entity which belongs to no document and satisfies a predicate
int stray( World& w, Rng& r, const std::function<bool( int )>& ok )
{
    VI c;
    for( int k : w.loose ) if( ok( k ) ) c.push_back( k );
    return c.empty() ? -1 : r.pick( c );
}
// an entity without a document becomes part of the document of the entity it is associated with
void adopt( World& w, int c, int doc )
{
    if( c < 0 || w.n[c].doc >= 0 ) return;
    w.loose.erase( std::find( w.loose.begin(), w.loose.end(), c ) );
    w.n[c].doc = doc;
    w.d[doc].order.push_back( c );
    ++g_stats.probes["adopted"];
}

bool below( World& w, int k, const std::function<bool( int )>& pred )     // an ancestor satisfies pred
{
    std::set<int> seen; VI todo{ k };
    while( !todo.empty() )
    {
        int q = todo.back(); todo.pop_back();
        if( !seen.insert( q ).second ) continue;
        if( q != k && pred( w.n[q].e.type ) ) return true;
        for( int x : w.parents( q ) ) todo.push_back( x );
    }
    return false;
}

void opLink( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    // prefer entities with associations of their own
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { int t = w.n[q].e.type; return t == 120 || t == 122 || t == 142 || t == 144 || t == 164 || t == 180 || t == 308 || t == 408 || isBrep( t ); } );
    if( k < 0 ) return;
    Node& N = w.n[k];
    EntM& e = N.e;
    std::set<int> have = w.kids( k );
    auto cand = [&]( std::function<bool( int )> type ) -> int
    {
        int s = e.type != 514 && r.chance( 1, 2 ) ? stray( w, r, [&]( int q ) { return type( w.n[q].e.type ); } ) : -1;
        if( s >= 0 ) return s;
        return choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return type( w.n[q].e.type ) && !have.count( q ) && q != k && !w.reaches( q, k ); } );
    };
    auto put = [&]( size_t i, int c )
    {
        if( c < 0 && i != (size_t) -1 && e.type != 142 && e.type != 144 && e.type != 408 ) return;
        bool ok = setLink( w, N.p, e, i, c );
        REQUIRE( ok, "link-refused", strf( "entity %d parameter %zu: entity %d", e.type, i, c < 0 ? 0 : w.n[c].e.type ) );
        e.p[i] = Val::P( c );
        adopt( w, c, N.doc );
        if( c >= 0 && setsDep( e.type ) ) w.n[c].e.sub = 1;
        trace( strf( "link %d.%zu %d", e.type, i, c < 0 ? 0 : w.n[c].e.type ) );
        ++g_stats.probes[strf( "relink-%d", e.type )];
    };
    bool drop = r.chance( 1, 4 );
    switch( e.type )
    {
        case 120: if( r.chance( 1, 2 ) ) put( 0, cand( []( int t ) { return t == 110; } ) ); else put( 1, cand( isCurve ) ); break;
        case 122: put( 0, cand( isCurve ) ); break;
        case 142:
        {
            size_t i = 1 + r.below( 3 );
            // curves in the parameter space of a surface are flat
            if( i == 2 && !drop )
                put( i, choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return isCurve( w.n[q].e.type ) && w.flat( q ) && !have.count( q ) && !w.reaches( q, k ); } ) );
            else put( i, drop ? -1 : i == 1 ? cand( isSurf ) : cand( isCurve ) );
            break;
        }
        case 144:
        {
            int i = r.below( 4 );
            if( i == 0 ) put( 0, drop ? -1 : cand( isSurf ) );
            else if( i == 1 ) { put( 3, drop ? -1 : cand( []( int t ) { return t == 142; } ) ); e.p[1].i = e.p[3].i >= 0; }
            else if( i == 2 )
            {
                int c = cand( []( int t ) { return t == 142; } );
                if( c < 0 ) return;
                e.p.push_back( Val::P( -1 ) );
                put( e.p.size() - 1, c );
                e.p[2].i = (long) e.p.size() - 4;
            }
            else if( e.p.size() > 4 )
            {
                size_t j = 4 + r.below( e.p.size() - 4 );
                REQUIRE( static_cast<IGES_ENTITY_144*>( N.p )->DelPTI( static_cast<IGES_ENTITY_142*>( w.n[e.p[j].i].p ) ), "link-refused", "DelPTI()" );
                e.p.erase( e.p.begin() + j );
                e.p[2].i = (long) e.p.size() - 4;
                ++g_stats.probes["DelPTI"];
                trace( "DelPTI" );
            }
            break;
        }
        case 164:
        {
            int c = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return isCurve( w.n[q].e.type ) && !have.count( q ) && !w.reaches( q, k ) && ( w.n[q].e.type != 102 || w.n[q].e.p.size() > 1 ) && dynamic_cast<IGES_CURVE*>( w.n[q].p )->IsClosed(); } );
            put( 0, c );
            break;
        }
        case 180:
        {
            static_cast<IGES_ENTITY_180*>( N.p )->ClearNodes();
            e.p.resize( 1 ); e.p[0].i = 0;
            have = w.kids( k );
            int n = drop ? 0 : 2 + r.below( 3 ), depth = 0;
            for( int i = 0; i < n; ++i )
            {
                int c = cand( []( int t ) { return t == 154 || t == 164; } );
                if( c < 0 ) break;
                REQUIRE( setLink( w, N.p, e, e.p.size(), c ), "link-refused", "AddArg()" );
                adopt( w, c, N.doc );
                e.p.push_back( Val::P( c ) ); have.insert( c );
                ++depth;
            }
            while( depth-- > 1 )
            {
                long o = 1 + r.below( 3 );
                REQUIRE( static_cast<IGES_ENTITY_180*>( N.p )->AddOp( (BTREE_OPERATOR) o ), "link-refused", "AddOp()" );
                e.p.push_back( Val::I( o ) );
            }
            e.p[0].i = (long) e.p.size() - 1;
            ++g_stats.probes["relink-180"];
            trace( "relink 180" );
            break;
        }
        case 308:
            if( drop && e.p.size() > 3 )
            {
                size_t j = 3 + r.below( e.p.size() - 3 );
                if( !w.n[e.p[j].i].p ) return;
                REQUIRE( static_cast<IGES_ENTITY_308*>( N.p )->DelDE( w.n[e.p[j].i].p ), "link-refused", "DelDE()" );
                e.p.erase( e.p.begin() + j );
                ++g_stats.probes["DelDE"];
            }
            else
            {
                int c = cand( []( int t ) { return isCurve( t ) || isSurf( t ) || t == 144 || t == 154 || t == 164 || t == 180 || t == 408; } );
                if( c < 0 ) return;
                e.p.push_back( Val::P( -1 ) );
                put( e.p.size() - 1, c );
            }
            e.p[2].i = (long) e.p.size() - 3;
            break;
        case 408: put( 0, drop ? -1 : cand( []( int t ) { return t == 308; } ) ); break;
        case 502:
            if( N.opaque ) return;
            for( int j = 0; j < 3; ++j ) e.p.push_back( Val::R( std::round( r.real( -50, 50 ) * 1e4 ) / 1e4 ) );
            ++e.p[0].i;
            setValues( N.p, e );
            ++g_stats.probes["add-vertex"];
            break;
        case 504:
        {
            auto list = [&]() { return choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return w.n[q].e.type == 502 && w.n[q].e.p[0].i > 0; } ); };
            int c = cand( isCurve ), a = list(), b = r.chance( 1, 2 ) ? a : list();
            if( c < 0 || a < 0 || b < 0 ) return;
            std::vector<Val> v{ Val::P( c ), Val::P( a ), Val::I( 1 + r.below( w.n[a].e.p[0].i ) ), Val::P( b ), Val::I( 1 + r.below( w.n[b].e.p[0].i ) ) };
            REQUIRE( addEdge( w, N.p, v, 0 ), "link-refused", "AddEdge() of an edge list" );
            adopt( w, c, N.doc );
            for( auto& x : v ) e.p.push_back( x );
            ++e.p[0].i;
            ++g_stats.probes["relink-504"];
            trace( "edge" );
            break;
        }
        case 508:
        {
            bool vx = r.chance( 1, 4 );
            int d = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return w.n[q].e.type == ( vx ? 502 : 504 ) && w.n[q].e.p[0].i > 0; } );
            if( d < 0 ) return;
            std::vector<Val> v{ Val::I( vx ), Val::P( d ), Val::I( 1 + r.below( w.n[d].e.p[0].i ) ), Val::I( r.below( 2 ) ), Val::I( 0 ) };
            // curves in parameter space: nothing else may use them
            for( int n = r.below( 3 ); n > 0; --n )
            {
                int c = stray( w, r, [&]( int q ) { return isCurve( w.n[q].e.type ) && w.n[q].e.type != 102 && w.flat( q ) && !have.count( q ); } );
                if( c < 0 ) c = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return isCurve( w.n[q].e.type ) && w.n[q].e.type != 102 && w.flat( q ) && !have.count( q ) && w.parents( q ).empty() && w.kids( q ).empty(); } );
                if( c < 0 ) break;
                have.insert( c );
                v.push_back( Val::I( r.below( 2 ) ) ); v.push_back( Val::P( c ) );
                ++v[4].i;
            }
            REQUIRE( addPart( w, N.p, v, 0 ), "link-refused", "AddEdge() of a loop" );
            for( auto& x : v ) if( x.k == 'p' ) adopt( w, (int) x.i, N.doc );
            for( auto& x : v ) e.p.push_back( x );
            ++e.p[0].i;
            ++g_stats.probes["relink-508"];
            trace( "part" );
            break;
        }
        case 510:
            if( drop ) { e.p[2].i = r.below( 2 ); setValues( N.p, e ); }
            else if( r.chance( 1, 2 ) ) { int c = cand( isSurf ); if( c >= 0 ) put( 0, c ); }
            else
            {
                int c = cand( []( int t ) { return t == 508; } );
                if( c < 0 ) return;
                e.p.push_back( Val::P( -1 ) );
                put( e.p.size() - 1, c );
                e.p[1].i = (long) e.p.size() - 3;
            }
            break;
        case 514:
        {
            int c = cand( []( int t ) { return t == 510; } );
            if( c < 0 ) return;
            bool f = r.below( 2 );
            REQUIRE( addFace( w, N.p, c, f ), "link-refused", "a face" );
            e.p.push_back( Val::P( c ) ); e.p.push_back( Val::I( f ) );
            ++e.p[0].i;
            ++g_stats.probes["relink-514"];
            break;
        }
    }
}

void opAttr( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    int k = choose( w, (long) r.below( 1000000 ), []( int ) { return true; } );
    if( k < 0 ) return;
    Node& N = w.n[k];
    EntM& e = N.e;
    IGES_ENTITY* p = N.p;
    int t = e.type;
    bool fixed = t == 124 || t == 314, br = isBrep( t ) && t != 508;
    auto ok = [&]( bool b, const char* what ) { REQUIRE( b, "setter-refused", strf( "entity %d: %s", t, what ) ); ++g_stats.probes[std::string( "set-" ) + what]; ++w.attrs; trace( strf( "set %d %s", t, what ) ); };
    auto inDoc = [&]( int ty ) { int s = r.chance( 1, 2 ) ? stray( w, r, [&]( int q ) { return w.n[q].e.type == ty; } ) : -1; return s >= 0 ? s : choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return w.n[q].e.type == ty && !w.kids( k ).count( q ) && q != k && !w.reaches( q, k ); } ); };
    switch( r.below( 15 ) )
    {
        case 0: if( fixed || t == 406 || br ) break; e.lineFont = r.below( 6 ); ok( p->SetLineFontPattern( (IGES_LINEFONT_PATTERN) e.lineFont ), "line-font" ); break;
        case 1: if( fixed ) break; e.level = r.below( 500 ); ok( p->SetLevel( (int) e.level ), "level" ); break;
        case 2:
        {
            if( t == 124 || t == 406 || br ) break;
            if( t == 314 ) { e.color = 1 + r.below( 8 ); ok( p->SetColor( (IGES_COLOR) e.color ), "colour" ); break; }
            int c = r.chance( 1, 2 ) ? inDoc( 314 ) : -1;
            if( c >= 0 ) { ok( p->SetColor( w.n[c].p ), "colour-entity" ); e.colorEnt = c; e.color = 0; adopt( w, c, N.doc ); ++w.links; }
            else if( r.chance( 1, 3 ) ) { ok( p->SetColor( (IGES_ENTITY*) nullptr ), "no-colour" ); e.colorEnt = -1; e.color = 0; }
            else { e.color = r.below( 9 ); e.colorEnt = -1; ok( p->SetColor( (IGES_COLOR) e.color ), "colour" ); }
            break;
        }
        case 3:
        {
            if( t == 314 || t == 406 || br || t == 508 ) break;
            if( below( w, k, []( int q ) { return q == 102 || q == 142 || q == 164; } ) ) break;
            if( t == 102 && below( w, k, []( int ) { return true; } ) ) break;
            int c = r.chance( 2, 3 ) ? inDoc( 124 ) : -1;
            if( c < 0 ) { ok( p->SetTransform( nullptr ), "no-transform" ); e.xform = -1; }
            else { ok( p->SetTransform( w.n[c].p ), "transform" ); e.xform = c; adopt( w, c, N.doc ); ++w.links; }
            break;
        }
        case 4: if( fixed || t == 308 ) break; e.blank = r.below( 2 ); ok( p->SetVisibility( !e.blank ), "visibility" ); break;
        case 5: if( fixed || ( isBrep( t ) && t != 514 ) ) break; e.sub = r.below( 4 ); ok( p->SetDependency( (IGES_STAT_DEPENDS) e.sub ), "dependency" ); break;
        case 6: if( !( isCurve( t ) || isSurf( t ) ) ) break; e.use = r.below( 6 ); ok( p->SetEntityUse( (IGES_STAT_USE) e.use ), "use" ); break;
        case 7: if( !hasHier( t ) ) break; e.hier = r.below( 3 ); ok( p->SetHierarchy( (IGES_STAT_HIER) e.hier ), "hierarchy" ); break;
        case 8:
        {
            if( fixed || t == 406 || br ) break;
            long g = w.d[N.doc].g.gradations;
            int v = r.below( g + 3 );
            e.weight = (int) std::min( (long) v, g );
            ok( p->SetLineWeightNum( v ), "line-weight" );
            break;
        }
        case 9: { std::string s; int m = r.below( 12 ); for( int i = 0; i < m; ++i ) s += "ABCDEFXYZ_0189"[r.below( 14 )]; e.label = s.substr( 0, 8 ); ok( p->SetLabel( s ), "label" ); break; }
        case 10: e.subscript = r.chance( 1, 3 ) ? 99999999 : r.below( 1000 ); ok( p->SetEntitySubscript( (int) e.subscript ), "subscript" ); break;
        case 11:
        {
            if( N.opaque ) break;
            int m = (int) e.comments.size();
            if( m && r.chance( 1, 3 ) ) { int i = r.below( m ); e.comments.erase( e.comments.begin() + i ); ok( p->DelComment( i ), "delete-comment" ); }
            else if( m && r.chance( 1, 4 ) ) { e.comments.clear(); ok( p->ClearComments(), "clear-comments" ); }
            else { std::string s; int len = 1 + r.below( 100 ); for( int i = 0; i < len; ++i ) s += "abcdef,;GHIJ 0123"[r.below( 17 )]; e.comments.push_back( s ); ok( p->AddComment( s ), "comment" ); }
            break;
        }
        case 12:
        {
            if( !e.exA.empty() || t == 406 || fixed ) break;
            if( !e.exB.empty() && r.chance( 1, 2 ) )
            {
                int i = r.below( e.exB.size() );
                if( !w.n[e.exB[i]].p ) break;
                ok( p->DelOptionalEntity( w.n[e.exB[i]].p ), "delete-optional" );
                e.exB.erase( e.exB.begin() + i );
            }
            else
            {
                int c = inDoc( 406 );
                if( c < 0 ) break;
                ok( p->AddOptionalEntity( w.n[c].p ), "optional" );
                e.exB.push_back( c ); adopt( w, c, N.doc ); ++w.links;
            }
            break;
        }
        case 13:
        {
            // a reference to nothing resets the attribute
            if( fixed || t == 406 || br ) break;
            switch( r.below( 4 ) )
            {
                case 0: e.lineFont = 0; ok( p->SetLineFontPattern( (IGES_ENTITY*) nullptr ), "no-line-font" ); break;
                case 1: e.level = 0; ok( p->SetLevel( (IGES_ENTITY*) nullptr ), "no-level" ); break;
                case 2: if( t != 508 ) ok( p->SetView( nullptr ), "no-view" ); break;
                case 3: ok( p->SetLabelAssoc( nullptr ), "no-label-display" ); break;
            }
            break;
        }
        case 14:
        {
            VI f = t == 110 ? VI{ 0, 1, 2 } : t == 126 ? VI{ 0, 1, 2, 3, 4, 5 } : t == 128 ? VI{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 } : t == 124 ? VI{ 0, 1, 10, 11, 12 } : t == 514 ? VI{ 1, 2 } : VI{};
            if( f.empty() || ( t == 514 && below( w, k, []( int q ) { return q == 186; } ) ) ) break;      // the shell of a solid is closed
            e.form = r.pick( f );
            ok( p->SetEntityForm( e.form ), "form" );
            break;
        }
    }
}

// new values for an entity on which no other geometry depends
void opEdit( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    auto able = []( int t ) { return t == 100 || t == 110 || t == 104 || t == 126 || t == 128 || t == 154 || t == 122 || t == 408 || t == 124 || t == 314 || t == 308 || t == 406; };
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return able( w.n[q].e.type ) && ( ( w.queries && isCurve( w.n[q].e.type ) ) || !below( w, q, []( int t ) { return t == 102 || t == 142 || t == 164 || t == 120 || t >= 500; } ) ); } );
    if( k < 0 ) return;
    EntM& e = w.n[k].e;
    GenOpt o;
    o.api = true; o.brep = false; o.paramArc = false; o.maxRoots = 3;
    const EntM* src = nullptr;
    DocM m;
    int t = e.type;
    o.subfig = t == 308 || t == 408;
    if( t != 308 && t != 408 && t != 124 && t != 314 && t != 406 ) o.roots = { t };
    for( int i = 0; i < 20 && !src; ++i )
    {
        m = GenDoc( r, o );
        for( auto& x : m.ents ) if( x.type == t && ( t != 104 || x.form == e.form || w.queries ) ) { src = &x; break; }
    }
    if( !src ) return;
    EntM ne = e;
    if( t == 126 || t == 128 || t == 314 ) { ne.p = src->p; }
    else for( size_t i = 0; i < e.p.size() && i < src->p.size(); ++i ) if( src->p[i].k == 'r' || src->p[i].k == 's' ) { if( ne.p[i].k == src->p[i].k ) ne.p[i] = src->p[i]; }
    if( w.queries && isCurve( t ) && below( w, k, []( int q ) { return q == 142 || q == 508; } ) )
    {   // curves in the parameter space of a surface stay flat
        if( t == 100 ) ne.p[0].r = 0;
        if( t == 104 ) ne.p[6].r = 0;
        if( t == 110 ) ne.p[2].r = ne.p[5].r = 0;
        if( t == 126 ) for( long j = 0, K = ne.p[0].i, M = ne.p[1].i; j <= K; ++j ) ne.p[6 + K + M + 2 + K + 1 + 3 * j + 2].r = 0;
    }
    setValues( w.n[k].p, ne );
    e = ne;
    ++g_stats.probes[strf( "edit-%d", t )];
    trace( strf( "edit %d", t ) );
    ++w.attrs; ++w.changed;
}

// attributes an entity cannot have: refused or (where the type has no such attribute) ignored
void badAttr( World& w, Rng& r, int k )
{
    if( k < 0 ) return;
    Node& N = w.n[k];
    IGES_ENTITY* p = N.p;
    int t = N.e.type;
    bool none = t == 124 || t == 314 || t == 406;     // attributes these do not have are ignored with a warning
    auto no = [&]( bool b, const char* what, bool ignored = false )
    {
        REQUIRE( !b || ignored, "accepted", strf( "entity %d: %s", t, what ) );
        ++g_stats.probes[std::string( "refused attribute: " ) + what];
        trace( what );
    };
    int q = choose( w, (long) r.below( 1000000 ), [&]( int ) { return true; } );
    IGES_ENTITY* x = w.n[q].p;
    int qt = w.n[q].e.type;
    switch( r.below( 13 ) )
    {
        case 0: no( p->SetLineFontPattern( (IGES_LINEFONT_PATTERN) ( r.chance( 1, 2 ) ? -1 : 6 ) ), "line font number", none ); break;
        case 1: no( p->SetLineFontPattern( x ), "entity which is no line font", none ); break;
        case 2: no( p->SetLevel( -1 - (int) r.below( 5 ) ), "negative level", t == 124 || t == 314 ); break;
        case 3: no( p->SetLevel( x ), "entity which is no level", t == 124 || t == 314 ); break;
        case 4: no( p->SetView( x ), "entity which is no view", none ); break;
        case 5: no( p->SetLabelAssoc( x ), "entity which is no label display", none ); break;
        case 6: no( p->SetColor( (IGES_COLOR) ( r.chance( 1, 2 ) ? -1 : 9 ) ), "colour number", none && t != 314 ); break;
        case 7: if( qt != 314 ) no( p->SetColor( x ), "entity which is no colour", none ); break;
        case 8: if( qt != 124 ) no( p->SetTransform( x ), "entity which is no transform", t == 314 || t == 406 ); break;
        case 9:
        {
            no( p->SetStructure( x ), "structure" );
            IGES_ENTITY* y = p;
            no( p->GetStructure( &y ), "asking for the structure" );
            REQUIRE( !y, "getter", "GetStructure() gives an entity where there is none" );
            break;
        }
        case 10:
        {
            std::set<int> f = t == 110 ? std::set<int>{ 0, 1, 2 } : t == 126 ? std::set<int>{ 0, 1, 2, 3, 4, 5 } : t == 128 ? std::set<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 } : t == 124 ? std::set<int>{ 0, 1, 10, 11, 12 }
                : t == 514 ? std::set<int>{ 1, 2 } : t == 508 || t == 180 ? std::set<int>{ 0, 1 } : t == 104 ? std::set<int>{ 1, 2, 3 } : t == 502 || t == 504 || t == 510 ? std::set<int>{ 1 } : t == 406 ? std::set<int>{ 15 } : std::set<int>{ 0 };
            int v = r.chance( 1, 3 ) ? -1 - (int) r.below( 3 ) : r.below( 20 );
            if( !f.count( v ) ) no( p->SetEntityForm( v ), "form", t == 314 );
            break;
        }
        case 11: if( t == 142 || t == 144 || t == 154 || t == 164 || t == 180 || t == 308 ) no( p->SetEntityUse( t == 308 ? STAT_USE_GEOMETRY : (IGES_STAT_USE) ( 1 + r.below( 5 ) ) ), "use" ); break;
        case 12: if( isBrep( t ) && t != 514 ) no( p->SetDependency( STAT_INDEPENDENT ), "independence" ); break;
    }
}

// parts an entity cannot have: refused, and the part it has stays
void badPart( World& w, Rng& r )
{
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { int t = w.n[q].e.type; return t == 120 || t == 142 || t == 144 || t == 164 || t == 180 || t == 102 || t == 308 || t == 408; } );
    if( k < 0 ) return;
    Node& N = w.n[k];
    EntM& e = N.e;
    auto any = [&]( std::function<bool( int )> ok ) { return choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return q != k && ok( q ); } ); };
    auto no = [&]( size_t i, int c, const char* what )
    {
        if( c < 0 || !w.n[c].p ) return;
        REQUIRE( !setLink( w, N.p, e, i, c ), "accepted", what );
        ++g_stats.probes[std::string( "refused " ) + what];
        trace( what );
    };
    switch( e.type )
    {
        case 120:
            if( r.chance( 1, 3 ) ) { int c = any( [&]( int q ) { return isCurve( w.n[q].e.type ) && w.n[q].e.type != 110; } ); no( 0, c, "axis which is no line" ); }
            else no( 1, (int) e.p[0].i, "axis as generatrix" );
            break;
        case 142: { int i = 1 + r.below( 3 ), j = 1 + ( i + r.below( 2 ) ) % 3; if( e.p[i].i != e.p[j].i ) no( j, (int) e.p[i].i, "part of a curve on a surface twice" ); break; }
        case 144:
            if( r.chance( 1, 3 ) ) { int c = any( [&]( int q ) { return isCurve( w.n[q].e.type ); } ); no( 0, c, "curve as the surface to be trimmed" ); }
            else if( e.p.size() > 4 && r.chance( 1, 2 ) ) { int c = (int) e.p[4 + r.below( e.p.size() - 4 )].i; no( 3, c, "inner boundary as outer boundary" ); }
            else no( 4, (int) e.p[3].i, "outer boundary as inner boundary" );
            break;
        case 164: { int c = any( [&]( int q ) { return isCurve( w.n[q].e.type ) && ( w.n[q].e.type != 102 || w.n[q].e.p.size() > 1 ) && !dynamic_cast<IGES_CURVE*>( w.n[q].p )->IsClosed(); } ); no( 0, c, "open curve to be extruded" ); break; }
        case 180: { int c = any( [&]( int q ) { return isCurve( w.n[q].e.type ); } ); no( 1, c, "curve as an operand" ); break; }
        case 102: { int c = any( [&]( int q ) { return w.n[q].e.type == 102; } ); no( 1, c, "composite curve as a segment" ); break; }
        case 308: { VI up; for( int q : w.parents( k ) ) if( w.n[q].doc == N.doc ) up.push_back( q ); if( !up.empty() ) no( 3, r.pick( up ), "subfigure which contains its parent" ); break; }
        case 408: { int c = any( [&]( int q ) { return w.n[q].e.type == 308 && w.reaches( q, k ); } ); no( 0, c, "instance of the subfigure it is part of" ); break; }
    }
}

// calls the library must refuse, changing nothing
void opBad( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    int k = choose( w, (long) r.below( 1000000 ), []( int ) { return true; } );
    int di = r.below( NDOC );
    auto no = [&]( bool b, const char* what ) { REQUIRE( !b, "accepted", what ); ++g_stats.probes[std::string( "refused " ) + what]; trace( what ); };
    switch( r.below( 24 ) )
    {
        default: badAttr( w, r, k ); break;
        case 15: case 16: case 17: badPart( w, r ); break;
        case 0: no( w.d[di].doc->DelEntity( nullptr ), "DelEntity(NULL)" ); break;
        case 1: if( k >= 0 ) { di = ( w.n[k].doc + 1 ) % NDOC; no( w.d[di].doc->DelEntity( w.n[k].p ), "DelEntity() of another document's entity" ); } break;
        case 2: if( k >= 0 ) { di = ( w.n[k].doc + 1 ) % NDOC; no( w.d[di].doc->UnlinkEntity( w.n[k].p ), "UnlinkEntity() of another document's entity" ); } break;
        case 3:
        {
            // documented: a NULL entity stands in for types which are not supported
            IGES_ENTITY* p = nullptr;
            REQUIRE( w.d[di].doc->NewEntity( r.pick( VI{ 101, 106, 999, 212 } ), &p ) && p, "create-refused", "NewEntity() of an unsupported type" );
            bool alive = false;
            p->AttachValidFlag( &alive );
            REQUIRE( alive && w.d[di].doc->DelEntity( p ) && !alive, "lifetime", "NULL entity" );
            break;
        }
        case 4: if( k >= 0 && w.n[k].e.type != 124 && w.n[k].e.type != 314 ) no( w.n[k].p->SetEntitySubscript( r.chance( 1, 2 ) ? -1 : 100000000 ), "SetEntitySubscript() out of range" ); break;
        case 5: if( k >= 0 && w.n[k].e.type != 124 && w.n[k].e.type != 314 && w.n[k].e.type != 406 ) no( w.n[k].p->SetLineWeightNum( -1 ), "negative line weight" ); break;
        case 6:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 126; } );
            if( k < 0 ) break;
            auto* x = static_cast<IGES_ENTITY_126*>( w.n[k].p );
            double t[20], c[80];
            for( int i = 0; i < 20; ++i ) t[i] = i;
            for( int i = 0; i < 80; ++i ) c[i] = i;
            switch( r.below( 5 ) )
            {
                case 0: no( x->SetNURBSData( 4, 1, t, c, false, 1, 2 ), "curve of order 1" ); break;
                case 1: no( x->SetNURBSData( 3, 4, t, c, false, 1, 2 ), "curve with too few points" ); break;
                case 2: no( x->SetNURBSData( 12, 4, t, c, true, -1, 2 ), "curve parameter below the knots" ); break;
                case 3: no( x->SetNURBSData( 12, 4, t, c, true, 1, 200 ), "curve parameter beyond the knots" ); break;
                case 4: no( x->SetNURBSData( 4, 3, nullptr, c, false, 1, 2 ), "curve without knots" ); break;
            }
            break;
        }
        case 7:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 128; } );
            if( k < 0 ) break;
            auto* x = static_cast<IGES_ENTITY_128*>( w.n[k].p );
            std::vector<double> t( 40 ), c( 4 * 400, 1.0 );
            for( int i = 0; i < 40; ++i ) t[i] = i;
            switch( r.below( 4 ) )
            {
                case 0: no( x->SetNURBSData( 20, 20, 3, 3, t.data(), t.data(), c.data(), true, false, false, -1, 3, 3, 4 ), "surface parameter below the knots" ); break;
                case 1: no( x->SetNURBSData( 20, 20, 3, 3, t.data(), t.data(), c.data(), true, false, false, 1, 3, 3, 400 ), "surface parameter beyond the knots" ); break;
                case 2: no( x->SetNURBSData( 2, 20, 3, 3, t.data(), t.data(), c.data(), true, false, false, 1, 3, 3, 4 ), "surface with too few points" ); break;
                case 3: no( x->SetNURBSData( 20, 20, 3, 1, t.data(), t.data(), c.data(), true, false, false, 1, 3, 3, 4 ), "surface of order 1" ); break;
            }
            break;
        }
        case 8: if( k >= 0 ) no( w.n[k].p->AddOptionalEntity( nullptr ), "AddOptionalEntity(NULL)" ); break;
        case 9: if( k >= 0 ) { int q = choose( w, (long) r.below( 1000000 ), [&]( int x ) { return w.n[x].e.type != 406 && x != k; } ); if( q >= 0 ) no( w.n[k].p->AddOptionalEntity( w.n[q].p ), "AddOptionalEntity() of geometry" ); } break;
        case 10: if( k >= 0 ) no( w.n[k].p->DelComment( r.chance( 1, 2 ) ? -1 : w.n[k].p->GetNComments() ), "DelComment() out of range" ); break;
        case 11:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { int t = w.n[q].e.type; return t == 122 || t == 120 || t == 308 || t == 102 || t == 144; } );
            if( k < 0 ) break;
            Node& N = w.n[k];
            if( N.e.type == 122 ) no( static_cast<IGES_ENTITY_122*>( N.p )->SetDE( nullptr ), "directrix NULL" );
            else if( N.e.type == 120 ) no( static_cast<IGES_ENTITY_120*>( N.p )->SetL( nullptr ), "axis NULL" );
            else if( N.e.type == 308 ) no( static_cast<IGES_ENTITY_308*>( N.p )->AddDE( nullptr ), "member NULL" );
            else if( N.e.type == 102 ) no( static_cast<IGES_ENTITY_102*>( N.p )->AddSegment( nullptr ), "segment NULL" );
            else no( static_cast<IGES_ENTITY_144*>( N.p )->AddPTI( nullptr ), "inner boundary NULL" );
            break;
        }
        case 12:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 504; } );
            if( k < 0 ) break;
            Node& N = w.n[k];
            auto any = [&]( std::function<bool( int )> ok ) { return choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return q != k && ok( q ) && !w.reaches( q, k ); } ); };
            int c = r.chance( 1, 2 ) ? stray( w, r, [&]( int q ) { return isCurve( w.n[q].e.type ); } ) : -1;
            if( c < 0 ) c = any( [&]( int q ) { return isCurve( w.n[q].e.type ) && !w.kids( k ).count( q ); } );
            int a = any( [&]( int q ) { return w.n[q].e.type == 502; } ), b = r.chance( 1, 2 ) ? a : any( [&]( int q ) { return w.n[q].e.type == 502; } );
            if( c < 0 || a < 0 ) break;
            long na = w.n[a].e.p[0].i, nb = w.n[b].e.p[0].i;
            std::vector<Val> v{ Val::P( c ), Val::P( a ), Val::I( 1 ), Val::P( b ), Val::I( 1 ) };
            const char* what = "";
            int z = r.below( 7 );
            if( ( na < 1 || nb < 1 ) && z > 3 ) z = 0;
            switch( z )
            {
                case 0: v[2].i = r.chance( 1, 2 ) ? 0 : na + 1; what = "edge starting at a vertex beyond the list"; break;
                case 1: v[4].i = r.chance( 1, 2 ) ? 0 : nb + 1; what = "edge ending at a vertex beyond the list"; break;
                case 2: v[1].i = -1; what = "edge without a start"; break;
                case 3: v[3].i = -1; what = "edge without an end"; break;
                case 4: v[0].i = -1; what = "edge without a curve"; break;
                case 5: { int s = any( [&]( int q ) { return isSurf( w.n[q].e.type ) && !w.kids( k ).count( q ); } ); if( s < 0 ) return; v[0].i = s; what = "edge along a surface"; break; }
                case 6: if( N.e.p.size() < 6 ) return; v[0].i = N.e.p[1 + 5 * r.below( N.e.p[0].i )].i; what = "edge along a curve which is an edge already"; break;
            }
            no( addEdge( w, N.p, v, 0 ), what );
            break;
        }
        case 13:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 508; } );
            if( k < 0 ) break;
            Node& N = w.n[k];
            auto any = [&]( std::function<bool( int )> ok ) { return choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return q != k && ok( q ) && !w.reaches( q, k ); } ); };
            bool vx = r.below( 2 );
            int d = any( [&]( int q ) { return w.n[q].e.type == ( vx ? 502 : 504 ); } );
            if( d < 0 ) break;
            std::vector<Val> v{ Val::I( vx ), Val::P( d ), Val::I( 1 ), Val::I( 1 ), Val::I( 0 ) };
            const char* what = "";
            auto pc = [&]( int c ) { v.push_back( Val::I( 1 ) ); v.push_back( Val::P( c ) ); ++v[4].i; };
            std::set<int> used = w.kids( k );
            for( int n = r.below( 3 ); n > 0; --n )
            {
                int c = r.chance( 1, 2 ) ? stray( w, r, [&]( int q ) { return isCurve( w.n[q].e.type ) && !used.count( q ); } ) : -1;
                if( c < 0 ) c = any( [&]( int q ) { return isCurve( w.n[q].e.type ) && !used.count( q ); } );
                if( c >= 0 ) { pc( c ); used.insert( c ); }
            }
            switch( r.below( 6 ) )
            {
                case 0: v[1].i = -1; what = "part of a loop without a list"; break;
                case 1: v[0].i = !v[0].i; what = "part of a loop with the wrong kind of list"; break;
                case 2: { int s = any( [&]( int q ) { return isSurf( w.n[q].e.type ) && !used.count( q ); } ); if( s < 0 ) return; pc( s ); what = "surface as a curve in parameter space"; break; }
                case 3: pc( -1 ); what = "curve in parameter space NULL"; break;
                case 4: if( !v[4].i ) return; pc( (int) v[6].i ); what = "curve in parameter space twice"; break;
                case 5:
                {
                    int c = -1;
                    for( size_t i = 1; i < N.e.p.size(); i += 5 + 2 * (size_t) N.e.p[i + 4].i ) if( N.e.p[i + 4].i ) c = (int) N.e.p[i + 6].i;
                    if( c < 0 ) return;
                    pc( c ); what = "curve in parameter space of another part";
                    break;
                }
            }
            no( addPart( w, N.p, v, 0 ), what );
            break;
        }
        case 14:
        {
            k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 510; } );
            if( k < 0 ) break;
            Node& N = w.n[k];
            auto* x = static_cast<IGES_ENTITY_510*>( N.p );
            switch( r.below( 4 ) )
            {
                case 0: no( x->AddBound( nullptr ), "loop NULL" ); break;
                case 1: no( x->SetSurface( nullptr ), "surface NULL" ); break;
                case 2: if( N.e.p.size() > 3 ) no( x->AddBound( static_cast<IGES_ENTITY_508*>( w.n[N.e.p[3].i].p ) ), "loop twice" ); break;
                case 3:
                {
                    int c = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return isCurve( w.n[q].e.type ) && !w.kids( k ).count( q ); } );
                    if( c >= 0 ) no( x->SetSurface( w.n[c].p ), "curve as the surface of a face" );
                    break;
                }
            }
            break;
        }
    }
}

void opDel( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    bool viaUser = r.chance( 1, 4 );
    int k = choose( w, (long) r.below( 1000000 ), []( int ) { return true; } );
    if( k < 0 ) return;
    Node& N = w.n[k];
    IGES& doc = *w.d[N.doc].doc;
    int np = (int) w.parents( k ).size();
    if( viaUser )
    {
        REQUIRE( doc.UnlinkEntity( N.p ), "delete-refused", "UnlinkEntity()" );
        delete N.p;
        ++g_stats.probes["deleted-by-user"];
    }
    else REQUIRE( doc.DelEntity( N.p ), "delete-refused", "DelEntity()" );
    trace( strf( "del %d", N.e.type ) );
    w.kill( k );
    if( np ) { ++g_stats.probes["deleted-with-parents"]; }
}

// an entity taken out of its document belongs to the user, whatever becomes of the
// document, until it is deleted or put into a document again
void opLoose( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    if( w.loose.empty() || r.chance( 1, 2 ) )
    {
        int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.kids( q ).empty() && w.parents( q ).empty() && w.n[q].e.weight == 0; } );
        if( k < 0 ) return;
        REQUIRE( w.d[w.n[k].doc].doc->UnlinkEntity( w.n[k].p ), "move-refused", "UnlinkEntity()" );
        auto& o = w.d[w.n[k].doc].order;
        o.erase( std::find( o.begin(), o.end(), k ) );
        w.n[k].doc = -1;
        w.loose.push_back( k );
        ++g_stats.probes["taken-out"];
        trace( "take" );
        return;
    }
    size_t i = r.below( w.loose.size() );
    int k = w.loose[i];
    w.loose.erase( w.loose.begin() + i );
    if( r.chance( 1, 4 ) )
    {
        delete w.n[k].p;
        w.n[k].dead = true;
        w.of.erase( w.n[k].p );
        ++g_stats.probes["loose-deleted"];
    }
    else
    {
        int to = r.below( NDOC );
        REQUIRE( w.d[to].doc->AddEntity( w.n[k].p ), "move-refused", "AddEntity()" );
        w.n[k].doc = to;
        w.d[to].order.push_back( k );
        ++g_stats.probes["put-back"];
    }
    trace( "put" );
}

void opMove( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.kids( q ).empty() && w.parents( q ).empty() && w.n[q].e.weight == 0; } );
    if( k < 0 ) return;
    int to = ( w.n[k].doc + 1 + r.below( NDOC - 1 ) ) % NDOC;
    if( w.d[to].order.empty() ) return;
    REQUIRE( w.d[w.n[k].doc].doc->UnlinkEntity( w.n[k].p ), "move-refused", "UnlinkEntity()" );
    REQUIRE( w.d[to].doc->AddEntity( w.n[k].p ), "move-refused", "AddEntity()" );
    auto& o = w.d[w.n[k].doc].order;
    o.erase( std::find( o.begin(), o.end(), k ) );
    w.n[k].doc = to;
    w.d[to].order.push_back( k );
    ++g_stats.probes["moved"];
    trace( "move" );
}

void opCull( World& w, const Op& op )
{
    int di = op.num( "doc" ) % NDOC;
    bool vicious = op.num( "vicious" );
    if( !vicious )
    {
        w.d[di].doc->Cull();
        int c = w.cull( di );
        w.culled += c; w.kept += (int) w.d[di].order.size();
        trace( strf( "cull %d of %zu", c, w.d[di].order.size() + c ) );
        return;
    }
    // everything that may go: unreferenced entities other than subfigure instances,
    // and what depends on nothing else once they are gone; everything that is
    // reachable from an instance, or does not depend on another entity, stays
    VI before = w.d[di].order;
    auto r = w.refs( di );
    std::set<int> must;
    for( int k : before ) if( w.orphan( k, r[k] ) || ( r[k] == 0 && w.n[k].e.type != 408 ) ) must.insert( k );
    // the largest set the documentation allows
    std::set<int> may;
    for( bool again = true; again; )
    {
        again = false;
        std::vector<int> rr( w.n.size(), 0 );
        for( int k : before ) if( !may.count( k ) ) for( int c : w.kids( k ) ) ++rr[c];
        for( int k : before )
        {
            if( may.count( k ) ) continue;
            bool gone = ( rr[k] == 0 && w.n[k].e.type != 408 ) || w.orphan( k, rr[k] );
            if( !gone && ( w.n[k].e.type != 408 ) )
                for( auto& v : w.n[k].e.p ) if( v.k == 'p' && v.i >= 0 && may.count( (int) v.i ) ) gone = true;
            if( !gone && w.n[k].e.type == 408 && w.n[k].e.p[0].i >= 0 && may.count( (int) w.n[k].e.p[0].i ) ) gone = true;
            if( gone ) { may.insert( k ); again = true; }
        }
    }
    if( w.opaque( di ) )
    {
        // what has gone shows only in the next file; nothing can be said before unless
        // everything that may go has to go, at once or in the passes that follow
        World::Copy c = w.copy( di );
        for( int k : must ) w.kill( k );
        w.cull( di );
        for( int k : may ) if( !w.n[k].dead ) { w.restore( di, c ); return; }
        for( int k : before ) if( w.n[k].dead && !may.count( k ) ) { w.restore( di, c ); return; }
        w.d[di].doc->Cull( true );
        w.culled += (int) may.size(); w.kept += (int) w.d[di].order.size();
        ++g_stats.probes["vicious-cull-of-file"];
        trace( strf( "vicious %zu of %zu", may.size(), before.size() ) );
        return;
    }
    w.d[di].doc->Cull( true );
    std::set<int> died;
    for( int k : before ) if( !w.n[k].flag ) died.insert( k );
    for( int k : must ) REQUIRE( died.count( k ), "cull-kept", strf( "Cull( true ) kept an unreferenced entity (type %d)", w.n[k].e.type ) );
    for( int k : died ) REQUIRE( may.count( k ), "cull-lost", strf( "Cull( true ) deleted an entity (type %d) which is in use", w.n[k].e.type ) );
    for( int k : before ) if( died.count( k ) ) w.kill( k );
    w.culled += (int) died.size(); w.kept += (int) w.d[di].order.size();
    ++g_stats.probes["vicious-cull"];
    trace( strf( "vicious %zu of %zu", died.size(), before.size() ) );
}

void opSave( World& w, const Op& op )
{
    int di = op.num( "doc" ) % NDOC;
    DocW& D = w.d[di];
    bool ok;
    std::string base = op.num( "as" ) ? strf( "saved as %ld.igs", (long) op.num( "as" ) ) : strf( "api%d.igs", di );
    std::string path = "/sim/" + base, before = seam::exists( path ) ? seam::get( path ) : "";
    bool hard;
    if( D.start.empty() ) D.autoStart = true;
    { Armed a( op ); ok = D.doc->Write( path.c_str(), true ); hard = seam::io_error_fired(); }
    w.cull( di );
    bool shortTree = false;
    for( int k : D.order ) if( w.n[k].e.type == 180 && w.n[k].e.p.size() < 4 ) shortTree = true;
    if( D.order.empty() )
    {
        REQUIRE( !ok || hard, "empty-saved", "Write() of an empty document succeeded" );
        return;
    }
    for( int k : D.order )
    {
        EntM& e = w.n[k].e;
        if( e.type == 142 ) { if( e.p[2].i < 0 ) e.p[4].i = 2; if( e.p[3].i < 0 ) e.p[4].i = 1; }
    }
    if( !ok )
    {
        REQUIRE( hard || shortTree, "save-refused", "Write() failed without a fault" );
        if( hard ) ++g_stats.probes["save-failed-on-fault"];
        trace( "save failed" );
        return;
    }
    if( hard ) return;          // decided by the W properties
    DocM got;
    std::string err;
    REQUIRE( ParseFile( path, got, err ), "malformed", err );
    REQUIRE( got.ents.size() == D.order.size(), "incomplete", strf( "%zu entities in the file, %zu in the document", got.ents.size(), D.order.size() ) );
    // the position of every entity in the file
    VI at( D.order.size(), -1 );
    for( int k : D.order )
    {
        if( !w.n[k].p ) continue;
        int s = w.n[k].p->getDESequence();
        REQUIRE( s >= 1 && ( s & 1 ) && ( s - 1 ) / 2 < (int) at.size() && at[( s - 1 ) / 2] < 0, "sequence", strf( "directory sequence %d of entity %d", s, w.n[k].e.type ) );
        at[( s - 1 ) / 2] = k;
    }
    size_t z = 0;
    for( int k : D.order )
    {
        if( w.n[k].p ) continue;
        while( at[z] >= 0 ) ++z;
        at[z] = k;
    }
    DocM want = w.toDoc( di, at );
    std::string df = Diff( want, got, CMP_ENTS | ( D.autoStart ? 0 : CMP_START ) | CMP_COMMENT, D.g.minRes );
    if( !df.empty() && getenv( "SIM_DUMP" ) ) fputs( seam::get( path ).c_str(), stderr );
    REQUIRE( df.empty(), "content", df );
    DocM a = got, b = got;
    a.g.pd = D.g.pd; a.g.rd = D.g.rd;
    if( !D.g.sender.empty() ) { a.g.sender = D.g.sender; a.g.system = D.g.system; a.g.receiver = D.g.receiver; }
    a.g.scale = D.g.scale; a.g.units = D.g.units; a.g.unitName = D.g.unitName; a.g.gradations = D.g.gradations;
    a.g.author = D.g.author; a.g.org = D.g.org; a.g.proto = D.g.proto; a.g.draft = D.g.draft; if( !D.g.date.empty() ) a.g.date = D.g.date;
    a.ents.clear(); b.ents.clear();
    df = Diff( a, b, CMP_GLOB, 1 );
    REQUIRE( df.empty(), "globals", df );
    REQUIRE( std::fabs( got.g.minRes - D.g.minRes ) <= 1e-5 * D.g.minRes, "globals", strf( "minimum resolution %g became %g", D.g.minRes, got.g.minRes ) );
    REQUIRE( got.g.file == base, "globals", "saved as '" + base + "' the file says it is '" + got.g.file + "'" );
    if( !( D.g.maxWidth > 0 ) ) D.g.maxWidth = 1;
    REQUIRE( std::fabs( got.g.maxWidth - D.g.maxWidth ) <= 1e-5 * D.g.maxWidth + D.g.minRes, "globals", strf( "largest line width %.9g instead of %.9g", got.g.maxWidth, D.g.maxWidth ) );
    D.g.file = got.g.file;
    ++w.saves;
    ++g_stats.probes["saved"];
    trace( strf( "saved %016llx", (unsigned long long) hash64( seam::get( path ) ) ) );
    if( op.num( "reread" ) )
    {
        // a composite curve that lost a segment may leave an extrusion without a closed curve
        bool open = false;
        for( int k : D.order )
            if( w.n[k].e.type == 164 )
            {
                int c = (int) w.n[k].e.p[0].i;
                if( !w.n[c].p || !dynamic_cast<IGES_CURVE*>( w.n[c].p )->IsClosed() ) open = true;
            }
        IGES again;
        bool rd = again.Read( path.c_str() );
        REQUIRE( rd || open, "own-output-refused", "Read() refused the file Write() produced" );
        ++g_stats.probes["reread"];
    }
}

void opLoad( World& w, const Op& op )
{
    int di = op.num( "doc" ) % NDOC;
    w.fresh( di );
    DocW& D = w.d[di];
    Rng r( op.u64( "seed" ) );
    GenOpt o;
    o.maxRoots = std::max( 1L, op.num( "n", 4 ) );
    o.paramArc = false;
    DocM m = GenDoc( r, o );
    m.g.units = 2; m.g.unitName = "MM"; m.g.scale = 1;
    if( m.g.minRes > 1e-5 ) m.g.minRes = 1e-5;
    long p = 1;
    while( p * 2 <= m.g.gradations ) p *= 2;
    m.g.gradations = p;
    for( auto& e : m.ents ) if( e.weight > p ) e.weight = (int) p;
    seam::put( "/sim/load.igs", WriteText( m, StyleFor( r ) ) );
    REQUIRE( D.doc->Read( "/sim/load.igs" ), "read-refused", "a valid file was refused" );
    m = ExpectDoc( m );     // Read() drops nothing that is written again; unreferenced parts may be gone already
    D.g = m.g; D.start = m.start;
    if( D.start.empty() ) D.autoStart = true;
    VI id( m.ents.size() );
    for( size_t i = 0; i < m.ents.size(); ++i ) id[i] = w.add( di, m.ents[i], nullptr );
    for( int k : id )
    {
        EntM& e = w.n[k].e;
        for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) v.i = id[v.i];
        if( e.xform >= 0 ) e.xform = id[e.xform];
        if( e.colorEnt >= 0 ) e.colorEnt = id[e.colorEnt];
        for( int& x : e.exA ) x = id[x];
        for( int& x : e.exB ) x = id[x];
    }
    trace( strf( "load %zu", id.size() ) );
    ++g_stats.probes["loaded"];
}

void opUnits( World& w, const Op& op )
{
    int di = op.num( "doc" ) % NDOC;
    DocW& D = w.d[di];
    if( D.order.empty() ) return;
    if( op.name == "convert" )
    {
        static const long U[3] = { 2, 1, 10 };
        long u = U[op.num( "units" ) % 3];
        REQUIRE( D.doc->ConvertUnits( (IGES_UNIT) u ), "convert-refused", strf( "to %ld", u ) );
        double f = MM[D.g.units] / MM[u];
        w.scale( di, f );
        D.g.units = u; D.g.unitName = UNAME[u]; D.g.minRes *= f; D.g.maxWidth *= f;
    }
    else
    {
        static const double S[3] = { 1, 2, 0.5 };
        double v = S[op.num( "scale" ) % 3];
        REQUIRE( D.doc->ChangeModelScale( v ), "rescale-refused", strf( "to %g", v ) );
        double f = v / D.g.scale;
        w.scale( di, f );
        D.g.minRes *= f; D.g.scale = v;
    }
    trace( op.name );
    ++w.changed;
}

void opExport( World& w, const Op& op )
{
    int si = op.num( "doc" ) % NDOC, ti = op.num( "to" ) % NDOC;
    DocW &S = w.d[si], &T = w.d[ti];
    IGES_ENTITY_308* h = reinterpret_cast<IGES_ENTITY_308*>( 16 );
    if( si == ti )
    {
        REQUIRE( !S.doc->Export( S.doc.get(), &h ) && !h, "export-accepted", "export of a document into itself" );
        REQUIRE( !S.doc->Export( nullptr, &h ), "export-accepted", "export without a destination" );
        REQUIRE( !S.doc->Export( T.doc.get(), nullptr ), "export-accepted", "export without a handle" );
        ++g_stats.probes["export-refused"];
        return;
    }
    bool ok = S.doc->Export( T.doc.get(), &h );
    REQUIRE( ok, "export-failed", "Export() failed" );
    if( S.order.empty() ) { REQUIRE( !h, "export-empty", "Export() of an empty document returned a subfigure" ); return; }
    // one set of units for both documents
    auto settle = [&]()
    {
        if( S.g.scale != T.g.scale ) { double f = T.g.scale / S.g.scale; w.scale( si, f ); S.g.minRes *= f; S.g.scale = T.g.scale; }
        if( S.g.units != T.g.units ) { double f = MM[S.g.units] / MM[T.g.units]; w.scale( si, f ); S.g.minRes *= f; S.g.maxWidth *= f; S.g.units = T.g.units; S.g.unitName = UNAME[T.g.units]; }
        for( int k : S.order )
        {
            EntM& e = w.n[k].e;
            if( e.weight > 0 ) e.weight = std::max( 1, (int) ( e.weight * ( (double) T.g.gradations / S.g.gradations ) ) );
        }
    };
    settle();
    auto r = w.refs( si );
    VI ss, tp, br;
    for( int k : S.order )
    {
        int t = w.n[k].e.type;
        if( t == 144 && r[k] == 0 ) tp.push_back( k );
        else if( t == 408 && r[k] == 0 ) ss.push_back( k );
        else if( t == 408 && r[k] == 1 )
        {
            int q = w.parents( k )[0];
            if( w.n[q].e.type == 308 && r[q] == 0 ) ss.push_back( k );
        }
        else if( t == 186 ) br.push_back( k );
    }
    VI top = !ss.empty() ? ss : !tp.empty() ? tp : br;
    if( top.empty() )
    {
        REQUIRE( !h, "export-nothing", "Export() returned a subfigure although there is nothing to put into it" );
        ++g_stats.probes["export-nothing"];
        return;
    }
    REQUIRE( h, "export-lost", strf( "Export() returned no subfigure for %zu top level entities", top.size() ) );
    EntM e;
    e.type = 308; e.use = 2;
    std::string nm = h->NAME;
    if( S.doc->globalData.fileName.empty() )
    {
        REQUIRE( nm.size() >= 8, "export-name", "no name was made up: '" + nm + "'" );
        REQUIRE( w.names.insert( nm ).second, "export-name", "the same name twice: " + nm );
        ++g_stats.probes["name-made-up"];
    }
    else
    {
        std::string want = S.doc->globalData.fileName;
        size_t dot = want.find_last_of( '.' );
        if( dot != std::string::npos && dot > 0 ) want.resize( dot );
        REQUIRE( nm == want, "export-name", "subfigure '" + nm + "' instead of '" + want + "'" );
    }
    e.p = { Val::I( 0 ), Val::S( nm ), Val::I( (long) top.size() ) };
    for( int k : top ) { e.p.push_back( Val::P( k ) ); w.n[k].e.sub = 1; }
    VI moved = S.order;
    S.order.clear();
    int k3 = w.add( ti, e, nullptr );
    for( int k : moved ) { w.n[k].doc = ti; }
    for( int k : top ) T.order.push_back( k );
    for( int k : moved ) if( std::find( top.begin(), top.end(), k ) == top.end() ) T.order.push_back( k );
    REQUIRE( !w.of.count( h ), "export-handle", "Export() returned an entity which existed before" );
    w.attach( k3, h );
    REQUIRE( h->GetParentIGES() == T.doc.get(), "export-owner", "the subfigure does not belong to the destination" );
    discover( w, k3 );
    ++w.exports;
    ++g_stats.probes["exported"];
    trace( strf( "export %zu of %zu", top.size(), moved.size() ) );
    // the source can be used again
    if( op.num( "refill" ) == 0 ) return;
    Op b( "build" );
    b.set( "doc", si ).set( "seed", (long) op.num( "refill" ) ).set( "n", 2 );
    REQUIRE( S.order.empty(), "", "" );
    S.g.units = T.g.units;
    w.fresh( si );
    build( w, b );
}

void opName( World& w, const Op& op )
{
    for( long i = op.num( "many" ); i >= 0; --i )
    {
        std::string s;
        if( op.num( "assy" ) ) w.d[op.num( "doc" ) % NDOC].doc->GetNewAssemblyName( s );
        else w.d[op.num( "doc" ) % NDOC].doc->GetNewPartName( s );
        REQUIRE( w.names.insert( s ).second, "same-name", "the name " + s + " was given out twice" );
        for( unsigned char c : s ) REQUIRE( isalnum( c ) || c == '_', "bad-name", "'" + s + "'" );
    }
    trace( "name" );
}

// ---------------------------------------------------------------- Q01: what entities say about their geometry
struct P3 { double v[3]; };
struct Pts { std::vector<P3> c; double mag = 1; };      // acceptable answers and the size of the numbers behind them
void apply( const World& w, int x, Pts& p )
{
    for( int guard = 0; x >= 0 && guard < 100; x = w.n[x].e.xform, ++guard )
    {
        const EntM& t = w.n[x].e;
        double m = 0;
        for( auto& q : p.c )
        {
            P3 o;
            for( int i = 0; i < 3; ++i )
            {
                double a = t.p[4 * i + 3].r, mm = std::fabs( a );
                for( int j = 0; j < 3; ++j ) { a += t.p[4 * i + j].r * q.v[j]; mm += std::fabs( t.p[4 * i + j].r ) * p.mag; }
                o.v[i] = a; m = std::max( m, mm );
            }
            q = o;
        }
        p.mag = std::max( p.mag, m );
    }
}
// the point of a spline curve at a parameter: its limits from both sides
bool spline( const EntM& e, double u, Pts& out )
{
    long K = e.p[0].i, M = e.p[1].i;
    bool rat = !e.p[4].i;
    auto T = [&]( long i ) { return e.p[6 + i].r; };
    size_t wo = 6 + K + M + 2, po = wo + K + 1;
    if( u < T( M ) || u > T( K + 1 ) ) return false;
    for( int side = 0; side < 2; ++side )
    {
        long s = -1;
        for( long i = M; i <= K; ++i ) if( T( i ) < T( i + 1 ) && ( side ? T( i ) <= u && u < T( i + 1 ) : T( i ) < u && u <= T( i + 1 ) ) ) s = i;
        if( s < 0 ) continue;
        std::vector<std::array<double, 4>> d( M + 1 );
        for( long j = 0; j <= M; ++j )
        {
            long c = s - M + j;
            double h = rat ? e.p[wo + c].r : 1;
            for( int z = 0; z < 3; ++z ) { d[j][z] = h * e.p[po + 3 * c + z].r; out.mag = std::max( out.mag, std::fabs( e.p[po + 3 * c + z].r ) ); }
            d[j][3] = h;
        }
        for( long q = 1; q <= M; ++q )
            for( long j = M; j >= q; --j )
            {
                double a = T( j + s - M ), b = T( j + 1 + s - q ), f = b > a ? ( u - a ) / ( b - a ) : 0;
                for( int z = 0; z < 4; ++z ) d[j][z] = d[j - 1][z] * ( 1 - f ) + d[j][z] * f;
            }
        out.c.push_back( P3{ { d[M][0] / d[M][3], d[M][1] / d[M][3], d[M][2] / d[M][3] } } );
    }
    return !out.c.empty();
}
// 1: known, 0: the curve has no such point, -1: no prediction
int curveEnd( const World& w, int k, bool end, bool xform, Pts& o )
{
    const EntM& e = w.n[k].e;
    auto put = [&]( double x, double y, double z ) { o.c.push_back( P3{ { x, y, z } } ); for( double v : o.c.back().v ) o.mag = std::max( o.mag, std::fabs( v ) ); };
    auto r = [&]( size_t i ) { return e.p[i].r; };
    switch( e.type )
    {
        case 100: put( r( end ? 5 : 3 ), r( end ? 6 : 4 ), r( 0 ) ); break;
        case 104: put( r( end ? 9 : 7 ), r( end ? 10 : 8 ), r( 6 ) ); break;
        case 110: { size_t i = end ? 3 : 0; put( r( i ), r( i + 1 ), r( i + 2 ) ); break; }
        case 102:
        {
            if( e.p.size() < 2 ) return 0;
            int q = curveEnd( w, (int) ( end ? e.p.back().i : e.p[1].i ), end, xform, o );
            if( q != 1 ) return q;
            break;
        }
        case 126:
        {
            long K = e.p[0].i, M = e.p[1].i;
            for( long i = 1; i < K + M + 2; ++i ) if( r( 6 + i ) < r( 6 + i - 1 ) ) return -1;
            if( !( r( 6 ) < r( 6 + M + 1 ) && r( 6 + K ) < r( 6 + K + M + 1 ) ) ) return -1;
            size_t v = 6 + K + M + 2 + 4 * ( K + 1 );
            if( !spline( e, r( v + end ), o ) ) return -1;
            break;
        }
        default: return -1;
    }
    if( xform ) apply( w, e.xform, o );
    return 1;
}
bool nearP( const Pts& p, const MCAD_POINT& g )
{
    for( auto& q : p.c )
    {
        double d = std::max( { std::fabs( q.v[0] - g.x ), std::fabs( q.v[1] - g.y ), std::fabs( q.v[2] - g.z ) } );
        if( d <= 1e-9 * ( 1 + p.mag ) ) return true;
    }
    return false;
}
std::string say( const MCAD_POINT& g ) { return strf( "(%.12g, %.12g, %.12g)", g.x, g.y, g.z ); }
std::string say( const Pts& p ) { std::string s; for( auto& q : p.c ) s += ( s.empty() ? "" : " or " ) + strf( "(%.12g, %.12g, %.12g)", q.v[0], q.v[1], q.v[2] ); return s; }

// 1 closed, 0 open, -1 undecided
int closedM( const World& w, int k )
{
    const EntM& e = w.n[k].e;
    const GlobM& g = w.d[w.n[k].doc].g;
    auto r = [&]( size_t i ) { return e.p[i].r; };
    // the documented resolution of the model, in either reading of its unit
    double lo = g.minRes * std::min( 1.0, MM[g.units] ) / std::max( 1.0, MM[g.units] ), hi = g.minRes * std::max( 1.0, MM[g.units] ) * std::max( 1.0, 1 / MM[g.units] );
    auto match = [&]( double d, double mag ) { return d <= std::max( 0.01 * lo, 1e-15 * mag ) ? 1 : d > 100 * hi + 1e-6 * ( 1 + mag ) ? 0 : -1; };
    auto gap = [&]( const Pts& a, const Pts& b )
    {
        if( a.c.size() != 1 || b.c.size() != 1 ) return -1;
        double d = 0;
        for( int i = 0; i < 3; ++i ) d = std::max( d, std::fabs( a.c[0].v[i] - b.c[0].v[i] ) );
        return match( d, std::max( a.mag, b.mag ) );
    };
    switch( e.type )
    {
        case 110: return 0;
        case 126: return e.p[3].i != 0;
        case 100:
        {
            double rad = std::hypot( r( 3 ) - r( 1 ), r( 4 ) - r( 2 ) ), mag = std::max( { std::fabs( r( 3 ) ), std::fabs( r( 4 ) ), std::fabs( r( 5 ) ), std::fabs( r( 6 ) ) } );
            if( match( rad, mag ) ) return -1;
            return match( std::hypot( r( 3 ) - r( 5 ), r( 4 ) - r( 6 ) ), mag );
        }
        case 104:
        {
            double q = r( 0 ) * r( 2 ) - r( 1 ) * r( 1 ) / 4, sz = std::fabs( r( 0 ) * r( 2 ) ) + r( 1 ) * r( 1 );
            if( !( q > 1e-9 * sz ) ) return q < -1e-9 * sz ? 0 : -1;
            return r( 7 ) == r( 9 ) && r( 8 ) == r( 10 ) ? 1 : 0;
        }
        case 102:
        {
            if( e.p.size() < 2 ) return 0;
            if( e.p.size() == 2 ) return closedM( w, (int) e.p[1].i );
            Pts a, b;
            // the transform of the whole does not open or close it
            if( curveEnd( w, (int) e.p[1].i, false, true, a ) != 1 || curveEnd( w, (int) e.p.back().i, true, true, b ) != 1 ) return -1;
            return gap( a, b );
        }
    }
    return -1;
}
// 1 a unique plane, 0 none, -1 undecided
int planeM( const EntM& e, double nn[3] )
{
    long K = e.p[0].i, M = e.p[1].i;
    size_t po = 6 + K + M + 2 + K + 1;
    auto X = [&]( long c, int z ) { return e.p[po + 3 * c + z].r - e.p[po + z].r; };
    double ext = 0; long far = 0;
    for( long c = 1; c <= K; ++c ) { double d = std::sqrt( X( c, 0 ) * X( c, 0 ) + X( c, 1 ) * X( c, 1 ) + X( c, 2 ) * X( c, 2 ) ); if( d > ext ) { ext = d; far = c; } }
    if( ext == 0 ) return 0;
    double u[3] = { X( far, 0 ) / ext, X( far, 1 ) / ext, X( far, 2 ) / ext }, off = 0;
    for( long c = 1; c <= K; ++c )
    {
        double a[3] = { X( c, 1 ) * u[2] - X( c, 2 ) * u[1], X( c, 2 ) * u[0] - X( c, 0 ) * u[2], X( c, 0 ) * u[1] - X( c, 1 ) * u[0] };
        double d = std::sqrt( a[0] * a[0] + a[1] * a[1] + a[2] * a[2] );
        if( d > off ) { off = d; for( int z = 0; z < 3; ++z ) nn[z] = a[z] / d; }
    }
    if( off < 1e-11 * ext ) return 0;
    if( off < 1e-2 * ext ) return -1;
    double dev = 0;
    for( long c = 1; c <= K; ++c ) dev = std::max( dev, std::fabs( X( c, 0 ) * nn[0] + X( c, 1 ) * nn[1] + X( c, 2 ) * nn[2] ) );
    return dev < 1e-10 * ext ? 1 : dev > 1e-3 * ext ? 0 : -1;
}

void ask( World& w, int k, Rng& r )
{
    Node& N = w.n[k];
    EntM& e = N.e;
    if( !N.p || N.doc < 0 ) return;
    auto bad = [&]( const char* what, const std::string& d ) { fail( what, strf( "entity %d (#%d): ", e.type, k ) + d ); };
    auto hit = [&]( const char* what ) { ++g_stats.probes[std::string( "asked " ) + what]; ++w.asked; };
    if( e.type == 124 )
    {
        MCAD_TRANSFORM t = static_cast<IGES_ENTITY_124*>( N.p )->GetTransformMatrix();
        for( int i = 0; i < 4; ++i )
        {
            Pts p;
            MCAD_POINT a( i == 0, i == 1, i == 2 );
            p.c.push_back( P3{ { a.x, a.y, a.z } } );
            apply( w, k, p );
            MCAD_POINT g = t * a;
            if( !nearP( p, g ) ) bad( "transform-matrix", "GetTransformMatrix() moves " + say( a ) + " to " + say( g ) + " instead of " + say( p ) );
        }
        hit( "matrix" );
        return;
    }
    if( e.type == 128 )
    {
        auto* x = static_cast<IGES_ENTITY_128*>( N.p );
        if( x->IsRational() != !e.p[6].i || x->isClosed1() != ( e.p[4].i == 1 ) || x->isClosed2() != ( e.p[5].i == 1 ) || x->isPeriodic1() != ( e.p[7].i == 1 ) || x->isPeriodic2() != ( e.p[8].i == 1 ) )
            bad( "surface-flag", "the properties of the surface are not those it was given" );
        hit( "surface" );
        return;
    }
    if( !isCurve( e.type ) ) return;
    auto* c = static_cast<IGES_CURVE*>( N.p );
    for( int z = 0; z < 4; ++z )
    {
        bool end = z & 1, xf = z & 2;
        Pts p;
        int want = curveEnd( w, k, end, xf, p );
        MCAD_POINT g( 1e77, 1e77, 1e77 );
        bool got = end ? c->GetEndPoint( g, xf ) : c->GetStartPoint( g, xf );
        if( want < 0 ) { ++g_stats.probes["point not predicted"]; continue; }
        if( got != ( want == 1 ) ) bad( "end-point", strf( "%s() %s", end ? "GetEndPoint" : "GetStartPoint", got ? "succeeded although there is no curve" : "failed" ) );
        if( want == 1 && !nearP( p, g ) ) bad( "end-point", strf( "the %s point%s is ", end ? "end" : "start", xf ? " (transformed)" : "" ) + say( g ) + " instead of " + say( p ) );
        hit( end ? "end" : "start" );
    }
    long nc = e.type == 102 ? (long) e.p.size() - 1 : 0, ns = e.type == 102 ? nc : e.type == 126 ? e.p[0].i + 1 : 1;
    if( c->GetNCurves() != nc ) bad( "curve-count", strf( "GetNCurves() is %d instead of %ld", c->GetNCurves(), nc ) );
    if( c->GetNSegments() != ns ) bad( "segment-count", strf( "GetNSegments() is %d instead of %ld", c->GetNSegments(), ns ) );
    for( int i : { -1, (int) r.below( nc + 1 ), (int) nc, (int) nc + 7 } )
    {
        IGES_CURVE* q = c->GetCurve( i );
        if( i < 0 || i >= nc ) { if( q ) bad( "curve-list", strf( "GetCurve(%d) of %ld curves is not NULL", i, nc ) ); }
        else if( w.n[e.p[1 + i].i].p && q != w.n[e.p[1 + i].i].p ) bad( "curve-list", strf( "GetCurve(%d) is another curve", i ) );
    }
    int cl = closedM( w, k );
    bool ic = c->IsClosed();
    if( cl >= 0 && ic != ( cl == 1 ) ) bad( "closed", ic ? "an open curve is said to be closed" : "a closed curve is said to be open" );
    hit( cl < 0 ? "closed (undecided)" : cl ? "closed" : "open" );
    if( e.type == 126 )
    {
        auto* x = static_cast<IGES_ENTITY_126*>( N.p );
        if( x->IsRational() != !e.p[4].i || x->isPeriodic() != ( e.p[5].i == 1 ) ) bad( "curve-flag", "the properties of the curve are not those it was given" );
        MCAD_POINT g;
        bool pl = x->IsPlanar();
        if( x->GetNormal( g ) != pl ) bad( "planar", "IsPlanar() and GetNormal() disagree" );
        double nn[3];
        int want = N.opaque ? -1 : planeM( e, nn );
        if( want >= 0 && pl != ( want == 1 ) ) bad( "planar", pl ? "a curve which does not determine a plane is said to be planar" : "a planar curve is said not to be planar" );
        if( want == 1 )
        {
            double d = nn[0] * g.x + nn[1] * g.y + nn[2] * g.z, l = std::sqrt( g.x * g.x + g.y * g.y + g.z * g.z );
            if( std::fabs( l - 1 ) > 1e-7 || std::fabs( std::fabs( d ) - 1 ) > 1e-7 ) bad( "normal", "the normal is " + say( g ) + strf( " instead of (%.12g, %.12g, %.12g)", nn[0], nn[1], nn[2] ) );
            hit( "normal" );
        }
        else if( want == 0 ) hit( "no plane" );
    }
}
void opAsk( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    for( size_t k = 0; k < w.n.size(); ++k )
        if( !w.n[k].dead && w.n[k].p && w.n[k].doc >= 0 && ( r.chance( 1, 2 ) || op.num( "all" ) ) ) ask( w, (int) k, r );
}
// another segment for a composite curve
void opSegment( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 102; } );
    if( k < 0 ) return;
    Node& N = w.n[k];
    std::set<int> have = w.kids( k );
    int c = r.chance( 1, 2 ) ? stray( w, r, [&]( int q ) { return isCurve( w.n[q].e.type ); } ) : -1;
    if( c < 0 ) c = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return isCurve( w.n[q].e.type ) && !have.count( q ) && !w.reaches( q, k ); } );
    if( c < 0 || ( !w.flat( c ) && below( w, k, []( int q ) { return q == 142 || q == 508; } ) ) ) return;
    int cl = N.e.p.size() < 2 ? 0 : closedM( w, k );
    bool ok = static_cast<IGES_ENTITY_102*>( N.p )->AddSegment( dynamic_cast<IGES_CURVE*>( w.n[c].p ) );
    bool comp = w.n[c].e.type == 102;
    if( comp ) REQUIRE( !ok, "segment-accepted", "a composite curve was made part of a composite curve" );
    else if( cl == 1 ) REQUIRE( !ok, "segment-accepted", "a closed composite curve took another segment" );
    else if( cl == 0 ) REQUIRE( ok, "segment-refused", "an open composite curve refused a segment" );
    ++g_stats.probes[ok ? "segment added" : "segment refused"];
    trace( strf( "segment %d", ok ) );
    if( !ok ) return;
    N.e.p.push_back( Val::P( c ) );
    N.e.p[0].i = (long) N.e.p.size() - 1;
    w.n[c].e.sub = 1;
    adopt( w, c, N.doc );
    ++w.links; ++w.changed;
}

// bend a line at an end of a composite curve so that the whole closes: as it lies
// in the model, only before its parts are moved, or in all but one coordinate
void opRing( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    auto line = [&]( long q ) { return w.n[q].p && w.n[q].e.type == 110; };
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { auto& e = w.n[q].e; return e.type == 102 && e.p.size() > 2 && ( line( e.p[1].i ) || line( e.p.back().i ) ) && !below( w, q, []( int t ) { return t == 142 || t == 508; } ); } );
    if( k < 0 ) return;
    EntM& e = w.n[k].e;
    bool last = line( e.p.back().i ) && ( !line( e.p[1].i ) || r.chance( 1, 2 ) );
    int c = (int) ( last ? e.p.back().i : e.p[1].i ), other = (int) ( last ? e.p[1].i : e.p.back().i );
    if( below( w, c, []( int t ) { return t == 142 || t == 508; } ) ) return;
    int way = r.below( 4 );
    Pts t;
    if( curveEnd( w, other, !last, way != 1, t ) != 1 || t.c.size() != 1 ) return;
    double x[3] = { t.c[0].v[0], t.c[0].v[1], t.c[0].v[2] };
    if( way != 1 && w.n[c].e.xform >= 0 )
    {   // back through the transform of the line
        Pts b;
        b.c = { P3{ { 0, 0, 0 } }, P3{ { 1, 0, 0 } }, P3{ { 0, 1, 0 } }, P3{ { 0, 0, 1 } } };
        apply( w, w.n[c].e.xform, b );
        double m[3][3], y[3];
        for( int i = 0; i < 3; ++i ) { y[i] = x[i] - b.c[0].v[i]; for( int j = 0; j < 3; ++j ) m[i][j] = b.c[j + 1].v[i] - b.c[0].v[i]; }
        auto det = [&]( const double a[3][3] ) { return a[0][0] * ( a[1][1] * a[2][2] - a[1][2] * a[2][1] ) - a[0][1] * ( a[1][0] * a[2][2] - a[1][2] * a[2][0] ) + a[0][2] * ( a[1][0] * a[2][1] - a[1][1] * a[2][0] ); };
        double d = det( m );
        if( std::fabs( d ) < 0.1 ) return;
        for( int j = 0; j < 3; ++j ) { double a[3][3]; for( int i = 0; i < 3; ++i ) for( int z = 0; z < 3; ++z ) a[i][z] = z == j ? y[i] : m[i][z]; x[j] = det( a ) / d; }
    }
    if( way == 2 ) x[r.below( 3 )] += r.real( 0.5, 5 );
    EntM ne = w.n[c].e;
    for( int j = 0; j < 3; ++j ) ne.p[( last ? 3 : 0 ) + j].r = x[j];
    setValues( w.n[c].p, ne );
    w.n[c].e = ne;
    ++w.changed;
    ++g_stats.probes[way == 1 ? "ring before moves" : way == 2 ? "ring but for one coordinate" : "ring"];
    trace( strf( "ring %d", way ) );
}

// points, matrices and transforms as a caller computes with them
// transforms on a composite curve and on a curve at one of its ends
void opPlace( World& w, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    int k = choose( w, (long) r.below( 1000000 ), [&]( int q ) { return w.n[q].e.type == 102 && w.n[q].e.p.size() > 1 && !below( w, q, []( int t ) { return t == 142 || t == 508; } ); } );
    if( k < 0 ) return;
    for( int c : { k, (int) ( r.chance( 1, 2 ) ? w.n[k].e.p.back().i : w.n[k].e.p[1].i ) } )
    {
        Node& N = w.n[c];
        if( !N.p || N.doc != w.n[k].doc || below( w, c, []( int t ) { return t == 142 || t == 508; } ) ) continue;
        int x = choose( w, (long) r.below( 1000000 ), N.doc, [&]( int q ) { return w.n[q].e.type == 124 && !w.reaches( q, c ) && q != c; } );
        if( x < 0 ) continue;
        REQUIRE( N.p->SetTransform( w.n[x].p ), "transform-refused", strf( "a transform for an entity of type %d", N.e.type ) );
        N.e.xform = x;
        ++w.links; ++w.changed;
        ++g_stats.probes[c == k ? "composite placed" : "end of a composite placed"];
    }
    trace( "place" );
}
void opAlgebra( World&, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    auto num = [&] { return r.chance( 1, 4 ) ? (double) r.range( -3, 3 ) : r.real( -50, 50 ); };
    auto pt = [&] { return MCAD_POINT( num(), num(), num() ); };
    auto mat = [&] { MCAD_MATRIX m; if( !r.chance( 1, 5 ) ) for( auto& row : m.v ) for( double& x : row ) x = num(); return m; };
    typedef std::array<double, 9> A9;
    typedef std::array<double, 3> A3;
    auto a3 = []( const MCAD_POINT& p ) { return A3{ p.x, p.y, p.z }; };
    auto a9 = []( const MCAD_MATRIX& m ) { A9 a; for( int i = 0; i < 9; ++i ) a[i] = m.v[i / 3][i % 3]; return a; };
    auto mul = []( const A9& a, const A9& b ) { A9 c; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { c[3 * i + j] = 0; for( int k = 0; k < 3; ++k ) c[3 * i + j] += a[3 * i + k] * b[3 * k + j]; } return c; };
    auto app = []( const A9& a, const A3& p ) { A3 c; for( int i = 0; i < 3; ++i ) { c[i] = 0; for( int k = 0; k < 3; ++k ) c[i] += a[3 * i + k] * p[k]; } return c; };
    auto lin = []( const auto& a, double f, const auto& b, double g ) { auto c = a; for( size_t i = 0; i < c.size(); ++i ) c[i] = f * a[i] + g * b[i]; return c; };
    auto same = [&]( const char* what, const auto& got, const auto& want ) { for( size_t i = 0; i < want.size(); ++i ) REQUIRE( std::fabs( got[i] - want[i] ) <= 1e-9 * ( 1 + std::fabs( want[i] ) + 1e5 ), "algebra", strf( "%s: component %zu is %.12g instead of %.12g", what, i, got[i], want[i] ) ); };
    MCAD_POINT p = pt(), q = pt();
    MCAD_MATRIX m = mat(), n = mat();
    double f = num();
    A3 P = a3( p ), Q = a3( q );
    A9 M = a9( m ), N = a9( n );
    same( "zero", a3( MCAD_POINT() ), A3{ 0, 0, 0 } );
    same( "identity", a9( MCAD_MATRIX() ), A9{ 1, 0, 0, 0, 1, 0, 0, 0, 1 } );
    same( "p+q", a3( p + q ), lin( P, 1, Q, 1 ) );
    same( "p-q", a3( p - q ), lin( P, 1, Q, -1 ) );
    same( "p*f", a3( p * f ), lin( P, f, Q, 0 ) );
    same( "f*p", a3( f * p ), lin( P, f, Q, 0 ) );
    { MCAD_POINT t( p ); t += q; same( "p+=q", a3( t ), lin( P, 1, Q, 1 ) ); t -= q; same( "p-=q", a3( t ), P ); t *= f; same( "p*=f", a3( t ), lin( P, f, Q, 0 ) ); t += t; same( "p+=p", a3( t ), lin( P, 2 * f, Q, 0 ) ); t -= t; same( "p-=p", a3( t ), A3{ 0, 0, 0 } ); }
    same( "m+n", a9( m + n ), lin( M, 1, N, 1 ) );
    same( "m-n", a9( m - n ), lin( M, 1, N, -1 ) );
    same( "m*f", a9( m * f ), lin( M, f, N, 0 ) );
    same( "f*m", a9( f * m ), lin( M, f, N, 0 ) );
    same( "m*n", a9( m * n ), mul( M, N ) );
    same( "m*p", a3( m * p ), app( M, P ) );
    { MCAD_MATRIX t( m ); t += n; same( "m+=n", a9( t ), lin( M, 1, N, 1 ) ); t -= n; same( "m-=n", a9( t ), M ); t *= n; same( "m*=n", a9( t ), mul( M, N ) ); t = m; t *= t; same( "m*=m", a9( t ), mul( M, M ) ); t = m; t *= f; same( "m*=f", a9( t ), lin( M, f, N, 0 ) ); }
    MCAD_TRANSFORM a( m, p ), b( n, q );
    MCAD_POINT x = pt();
    A3 X = a3( x ), BX = lin( app( N, X ), 1, Q, 1 ), AX = lin( app( M, X ), 1, P, 1 );
    same( "transform of a point", a3( a * x ), AX );
    same( "transforms in a row", a3( ( a * b ) * x ), lin( app( M, BX ), 1, P, 1 ) );
    { MCAD_TRANSFORM t( a ); t *= b; same( "a*=b", a3( t * x ), lin( app( M, BX ), 1, P, 1 ) ); t = a; t *= t; same( "a*=a", a3( t * x ), lin( app( M, AX ), 1, P, 1 ) ); }
    same( "a scaled transform", a3( ( f * a ) * x ), lin( AX, f, AX, 0 ) );
    { MCAD_TRANSFORM t( a ); t *= f; same( "a*=f", a3( t * x ), lin( AX, f, AX, 0 ) ); }
    same( "no transform", a3( MCAD_TRANSFORM() * x ), X );
    same( "operands", a9( a.R ), M ); same( "operands", a3( b.T ), Q );
    ++g_stats.probes["asked algebra"];
}

void run( const Script& s )
{
    World w;
    w.queries = s.prop == "Q01";
    g_relTol = 2e-12;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        ++g_stats.ops[op.name];
        if( op.name == "clock" ) { seam::set_clock( op.num( "t" ), { op.num( "step" ) } ); continue; }
        else if( op.name == "build" ) build( w, op );
        else if( op.name == "link" ) opLink( w, op );
        else if( op.name == "attr" ) opAttr( w, op );
        else if( op.name == "edit" ) opEdit( w, op );
        else if( op.name == "bad" ) opBad( w, op );
        else if( op.name == "del" ) opDel( w, op );
        else if( op.name == "move" ) opMove( w, op );
        else if( op.name == "loose" ) opLoose( w, op );
        else if( op.name == "cull" ) opCull( w, op );
        else if( op.name == "save" ) opSave( w, op );
        else if( op.name == "load" ) opLoad( w, op );
        else if( op.name == "convert" || op.name == "rescale" ) opUnits( w, op );
        else if( op.name == "export" ) opExport( w, op );
        else if( op.name == "name" ) opName( w, op );
        else if( op.name == "place" ) opPlace( w, op );
        else if( op.name == "algebra" ) opAlgebra( w, op );
        else if( op.name == "ask" ) opAsk( w, op );
        else if( op.name == "segment" ) opSegment( w, op );
        else if( op.name == "ring" ) opRing( w, op );
        else if( op.name == "compact" )
        {
            w.d[op.num( "doc" ) % NDOC].doc->Compact();
            trace( "compact" );
        }
        else if( op.name == "clear" )
        {
            int di = op.num( "doc" ) % NDOC;
            if( op.num( "destroy" ) ) { w.fresh( di ); }
            else
            {
                for( int k : VI( w.d[di].order ) ) { w.n[k].dead = true; if( w.n[k].p ) w.of.erase( w.n[k].p ); }
                w.d[di].order.clear();
                w.d[di].start.clear(); w.d[di].autoStart = false;
                REQUIRE( w.d[di].doc->Clear(), "clear-refused", "Clear()" );
                REQUIRE( w.d[di].doc->GetNHeaderLines() == 0, "clear-kept", "Clear() kept the start section" );
                w.d[di].g = GlobM(); w.d[di].g.minRes = 1e-8; w.d[di].g.maxWidth = 0;
                w.d[di].g.units = 2; w.d[di].g.scale = 1;
            }
            trace( "clear" );
        }
        // now and then several calls are made before anything is looked at
        if( !op.num( "blind" ) ) checkAll( w );
        const std::string& p = s.prop;
        bool nt = p == "W05" ? w.saves > 0 && w.links > 3 : p == "M02" ? w.kills > 0 && w.links > 3 : p == "M03" ? w.culled > 0 && w.kept > 0 : p == "M04" ? w.exports > 0 : p == "Q01" ? w.asked > 8 && w.changed > 1 : w.names.size() > 2;
        if( nt && p != "" ) { static const Script* last = nullptr; static uint64_t lastRun = ~0ull; if( last != &s || lastRun != g_stats.runs ) { Nontrivial(); last = &s; lastRun = g_stats.runs; } }
    }
    // every document destroyed: nothing may be left alive but what was taken out
    for( int di = 0; di < NDOC; ++di ) w.fresh( di );
    checkAll( w );
    while( !w.loose.empty() )
    {
        int k = w.loose.back(); w.loose.pop_back();
        delete w.n[k].p;
        w.n[k].dead = true;
    }
    checkAll( w );
}

// ---------------------------------------------------------------- generators
long sd( Rng& r ) { return (long) ( r.next() >> 2 ); }
Op mkBuild( Rng& r, int doc, int n )
{
    Op b( "build" );
    b.set( "doc", doc ).set( "seed", sd( r ) ).set( "n", 1 + r.below( n ) ).set( "units", (long) r.below( 3 ) ).set( "scale", (long) ( r.chance( 1, 2 ) ? 0 : r.below( 3 ) ) );
    if( r.chance( 1, 4 ) ) b.set( "noname", 1 );
    return b;
}
Op mkSave( Rng& r, int doc )
{
    Op o( "save" );
    o.set( "doc", doc ).set( "reread", r.below( 2 ) );
    if( r.chance( 1, 3 ) ) o.set( "as", 1 + r.below( 3 ) );
    if( r.chance( 1, 6 ) )
    {
        switch( r.below( 3 ) )
        {
            case 0: o.fault( 'o', 1, "eacces" ); break;
            case 1: o.fault( 'w', 1 + r.below( 3 ), "enospc", r.below( 80 ) ); break;
            default: o.fault( 'c', 1, "eio" ); break;
        }
    }
    else BenignWrite( r, o );
    return o;
}
void genWith( Rng& r, Script& s, int steps, const std::vector<std::pair<const char*, int>>& mix, bool files )
{
    int total = 0;
    for( auto& m : mix ) total += m.second;
    int nb = 1 + r.below( 2 );
    for( int i = 0; i < nb; ++i )
    {
        if( files && r.chance( 1, 3 ) ) { Op o( "load" ); o.set( "doc", i ).set( "seed", sd( r ) ).set( "n", 1 + r.below( 4 ) ); s.ops.push_back( o ); }
        else s.ops.push_back( mkBuild( r, i, 5 ) );
    }
    bool some = r.chance( 1, 2 );
    for( int i = 0; i < steps; ++i )
    {
        bool blind = some && r.chance( 2, 3 );
        int x = r.below( total );
        size_t j = 0;
        while( x >= mix[j].second ) x -= mix[j++].second;
        std::string nm = mix[j].first;
        int doc = r.chance( 2, 3 ) ? r.below( nb ) : r.below( NDOC );
        if( nm == "build" ) s.ops.push_back( mkBuild( r, doc, 3 ) );
        else if( nm == "save" ) s.ops.push_back( mkSave( r, doc ) );
        else
        {
            Op o( nm );
            o.set( "seed", sd( r ) ).set( "doc", doc );
            if( nm == "cull" ) o.set( "vicious", r.chance( 1, 3 ) );
            if( nm == "export" ) o.set( "to", r.chance( 1, 8 ) ? doc : ( doc + 1 + r.below( NDOC - 1 ) ) % NDOC ).set( "refill", r.chance( 1, 2 ) ? sd( r ) : 0 );
            if( nm == "clear" ) o.set( "destroy", r.below( 2 ) );
            if( nm == "name" ) o.set( "assy", r.below( 2 ) ).set( "many", r.chance( 1, 3 ) ? 1 + r.below( r.chance( 1, 2 ) ? 20 : 1500 ) : 0 );
            if( nm == "load" ) o.set( "n", 1 + r.below( 4 ) );
            if( nm == "convert" ) o.set( "units", r.below( 3 ) );
            if( nm == "rescale" ) o.set( "scale", r.below( 3 ) );
            if( blind && i + 1 < steps ) o.set( "blind", 1 );
            s.ops.push_back( o );
        }
    }
    s.ops.push_back( mkSave( r, r.below( nb ) ) );
}
void genW05( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    genWith( r, s, 2 + r.below( th ? 30 : 12 ), { { "build", 4 }, { "attr", 12 }, { "edit", 6 }, { "link", 4 }, { "del", 1 }, { "save", 6 }, { "convert", 1 }, { "rescale", 1 }, { "bad", 3 } }, false );
}
void genM02( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    genWith( r, s, 4 + r.below( th ? 60 : 25 ), { { "build", 2 }, { "attr", 5 }, { "link", 14 }, { "del", 12 }, { "move", 3 }, { "loose", 4 }, { "bad", 3 }, { "cull", 1 }, { "save", 1 }, { "clear", 1 } }, false );
}
void genM03( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    genWith( r, s, 3 + r.below( th ? 30 : 12 ), { { "build", 2 }, { "attr", 4 }, { "link", 8 }, { "del", 6 }, { "cull", 8 }, { "save", 5 }, { "export", 1 } }, true );
}
void genM04( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    genWith( r, s, 3 + r.below( th ? 25 : 10 ), { { "build", 4 }, { "load", 3 }, { "export", 12 }, { "name", 1 }, { "attr", 2 }, { "link", 2 }, { "del", 2 }, { "convert", 2 }, { "rescale", 2 }, { "save", 5 }, { "cull", 1 }, { "clear", 1 } }, true );
}
void genQ01( uint64_t seed, bool th, Script& s )
{
    Rng r( seed );
    genWith( r, s, 4 + r.below( th ? 50 : 20 ), { { "build", 3 }, { "edit", 12 }, { "ask", 14 }, { "attr", 6 }, { "link", 3 }, { "segment", 4 }, { "ring", 5 }, { "del", 3 }, { "loose", 2 }, { "move", 2 }, { "convert", 3 }, { "rescale", 3 }, { "load", 1 }, { "compact", 2 }, { "bad", 2 }, { "algebra", 1 }, { "place", 6 } }, true );
    s.ops.pop_back();       // nothing is saved: the parts of a curve need not fit here
    Op o( "ask" );
    s.ops.push_back( o.set( "seed", sd( r ) ).set( "all", 1 ) );
}
RegScenario r0( Scenario{ "Q01", genQ01, run, "a run is non-trivial when at least nine questions were asked and the geometry changed at least twice" } );
RegScenario r1( Scenario{ "W05", genW05, run, "a run is non-trivial when a document with at least four associations made through the interface was saved and compared" } );
RegScenario r2( Scenario{ "M02", genM02, run, "a run is non-trivial when an entity of a document with at least four associations was deleted or culled" } );
RegScenario r3( Scenario{ "M03", genM03, run, "a run is non-trivial when culling removed something and left something" } );
RegScenario r4( Scenario{ "M04", genM04, run, "a run is non-trivial when a document with content was exported into another" } );
}
