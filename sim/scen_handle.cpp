// H01: handles of the application interface (DLL_*) follow the life of the objects
// they refer to.  The model knows every object, who owns it and what was set on it;
// after every call each handle must agree with it.
#include "scen.h"
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
#include <api/dll_iges_geom_pcb.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_mcad_segment.h>
#include <geom/iges_geom_pcb.h>
#include <geom/mcad_outline.h>
#include <geom/mcad_segment.h>
#include <algorithm>
#include <cmath>
#include <cstring>

namespace
{
const int TYPES[] = { 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408 };
const int NT = 15;
typedef DLL_IGES_ENTITY H;

H* make( int t, IGES* p, DLL_IGES* d, bool create )
{
#define MK( n ) case n: return d ? (H*) new DLL_IGES_ENTITY_##n( *d, create ) : (H*) new DLL_IGES_ENTITY_##n( p, create );
    switch( t )
    {
        MK( 100 ) MK( 102 ) MK( 104 ) MK( 110 ) MK( 120 ) MK( 122 ) MK( 124 ) MK( 126 ) MK( 128 ) MK( 142 ) MK( 144 ) MK( 308 ) MK( 314 ) MK( 406 ) MK( 408 )
    }
#undef MK
    return nullptr;
}

std::string num( double v ) { return strf( "%.17g", v ); }
std::string num3( double a, double b, double c ) { return num( a ) + "," + num( b ) + "," + num( c ); }
double val( Rng& r ) { return r.below( 3 ) ? (double) r.range( -2000, 2000 ) / 8 : r.real( -100, 100 ); }

// ----- values: set draws a value, get reads it; both return false on an invalid handle
struct Attr
{
    int type;       // 0: every entity
    const char* name;
    bool ( *set )( H*, Rng&, std::string& v );
    bool ( *get )( H*, std::string& v, bool alt );
};
#define S( T, ... ) []( H* h0, Rng& r, std::string& v ) -> bool { T* h = (T*) h0; (void) h; __VA_ARGS__ }
#define G( T, ... ) []( H* h0, std::string& v, bool alt ) -> bool { T* h = (T*) h0; (void) h; (void) alt; __VA_ARGS__ }
#define PT3( T, SETP, SETN, GETF ) \
    S( T, double a = val( r ), b = val( r ), c = val( r ); v = num3( a, b, c ); if( r.below( 2 ) ) return h->SETP( MCAD_POINT( a, b, c ) ); return h->SETN( a, b, c ); ), \
    G( T, double a = 0, b = 0, c = 0; bool ok; MCAD_POINT p; if( alt ) { ok = h->GETF( p ); a = p.x; b = p.y; c = p.z; } else ok = h->GETF( a, b, c ); v = num3( a, b, c ); return ok; )

bool g_raw = false;     // the variant of a call which takes the entity itself instead of a handle
const Attr ATTR[] = {
    { 0, "subscript", S( H, int x = (int) r.range( 0, 9999999 ); v = std::to_string( x ); return h->SetEntitySubscript( x ); ), G( H, int x = -1; bool ok = h->GetEntitySubscript( x ); v = std::to_string( x ); return ok; ) },
    { 0, "visibility", S( H, bool x = r.below( 2 ); v = x ? "1" : "0"; return h->SetVisibility( x ); ), G( H, bool x = false; bool ok = h->GetVisibility( x ); v = x ? "1" : "0"; return ok; ) },
    { 0, "label", S( H, std::string x; for( int i = 1 + r.below( 8 ); i; --i ) x += (char) ( 'A' + r.below( 26 ) ); v = x; return h->SetLabel( x.c_str() ); ), G( H, const char* x = nullptr; bool ok = h->GetLabel( x ); v = x ? x : ""; return ok; ) },
    { -1, "line font", S( H, int x = r.below( 6 ); v = std::to_string( x ); return h->SetLineFontPattern( (IGES_LINEFONT_PATTERN) x ); ), G( H, IGES_LINEFONT_PATTERN x = (IGES_LINEFONT_PATTERN) 99; bool ok = h->GetLineFontPattern( x ); v = std::to_string( (int) x ); return ok; ) },
    { -1, "level", S( H, int x = r.below( 3 ) ? r.below( 1000 ) : 0; v = std::to_string( x ); return x || r.below( 2 ) ? h->SetLevel( x ) : h->SetLevel( (IGES_ENTITY*) nullptr ); ), G( H, int x = -1; bool ok = h->GetLevel( x ); v = std::to_string( x ); return ok; ) },
    { -1, "colour number", S( H, int x = 1 + r.below( 8 ); v = std::to_string( x ); return h->SetColor( (IGES_COLOR) x ); ), G( H, IGES_COLOR x = (IGES_COLOR) 99; bool ok = h->GetColor( x ); v = std::to_string( (int) x ); return ok; ) },
    { -1, "line weight", S( H, int x = r.below( 2 ); v = std::to_string( x ); return h->SetLineWeightNum( x ); ), G( H, int x = -1; bool ok = h->GetLineWeightNum( x ); v = std::to_string( x ); return ok; ) },
    { -1, "dependency", S( H, int x = r.below( 4 ); v = std::to_string( x ); return h->SetDependency( (IGES_STAT_DEPENDS) x ); ), G( H, IGES_STAT_DEPENDS x = (IGES_STAT_DEPENDS) 99; bool ok = h->GetDependency( x ); v = std::to_string( (int) x ); return ok; ) },
    { -1, "use", S( H, int x = r.below( 6 ); v = std::to_string( x ); return h->SetEntityUse( (IGES_STAT_USE) x ); ), G( H, IGES_STAT_USE x = (IGES_STAT_USE) 99; bool ok = h->GetEntityUse( x ); v = std::to_string( (int) x ); return ok; ) },
    { 110, "form", S( H, int x = r.below( 3 ); v = std::to_string( x ); return h->SetEntityForm( x ); ), G( H, int x = -1; bool ok = h->GetEntityForm( x ); v = std::to_string( x ); return ok; ) },
    { 102, "hierarchy", S( H, int x = r.below( 3 ); v = std::to_string( x ); return h->SetHierarchy( (IGES_STAT_HIER) x ); ), G( H, IGES_STAT_HIER x = (IGES_STAT_HIER) 99; bool ok = h->GetHierarchy( x ); v = std::to_string( (int) x ); return ok; ) },
    { 110, "start", PT3( DLL_IGES_ENTITY_110, SetLineStart, SetLineStart, GetLineStart ) },
    { 110, "end", PT3( DLL_IGES_ENTITY_110, SetLineEnd, SetLineEnd, GetLineEnd ) },
    { 122, "generatrix", PT3( DLL_IGES_ENTITY_122, SetGeneratrixEnd, SetGeneratrixEnd, GetGeneratrixEnd ) },
    { 100, "centre", PT3( DLL_IGES_ENTITY_100, SetCircleCenter, SetCircleCenter, GetCircleCenter ) },
    { 100, "start", S( DLL_IGES_ENTITY_100, double a = val( r ); double b = val( r ); v = num( a ) + "," + num( b ); if( r.below( 2 ) ) return h->SetCircleStart( MCAD_POINT( a, b, 0 ) ); return h->SetCircleStart( a, b ); ),
      G( DLL_IGES_ENTITY_100, double a = 0; double b = 0; double c = 0; bool ok; MCAD_POINT p; if( alt ) { ok = h->GetCircleStart( p ); a = p.x; b = p.y; } else ok = h->GetCircleStart( a, b, c ); v = num( a ) + "," + num( b ); return ok; ) },
    { 100, "end", S( DLL_IGES_ENTITY_100, double a = val( r ); double b = val( r ); v = num( a ) + "," + num( b ); if( r.below( 2 ) ) return h->SetCircleEnd( MCAD_POINT( a, b, 0 ) ); return h->SetCircleEnd( a, b ); ),
      G( DLL_IGES_ENTITY_100, double a = 0; double b = 0; double c = 0; bool ok; MCAD_POINT p; if( alt ) { ok = h->GetCircleEnd( p ); a = p.x; b = p.y; } else ok = h->GetCircleEnd( a, b, c ); v = num( a ) + "," + num( b ); return ok; ) },
    { 104, "params", S( DLL_IGES_ENTITY_104, double p[6]; for( auto& x : p ) { x = val( r ); v += num( x ) + ","; } return h->SetConicParams( p[0], p[1], p[2], p[3], p[4], p[5] ); ),
      G( DLL_IGES_ENTITY_104, double p[6] = { 0 }; bool ok = h->GetConicParams( p[0], p[1], p[2], p[3], p[4], p[5] ); for( double x : p ) v += num( x ) + ","; return ok; ) },
    { 104, "start", PT3( DLL_IGES_ENTITY_104, SetConicStart, SetConicStart, GetConicStart ) },
    { 104, "end", S( DLL_IGES_ENTITY_104, double a = val( r ); double b = val( r ); v = num( a ) + "," + num( b ); if( r.below( 2 ) ) return h->SetConicEnd( MCAD_POINT( a, b, 0 ) ); return h->SetConicEnd( a, b ); ),
      G( DLL_IGES_ENTITY_104, double a = 0; double b = 0; double c = 0; bool ok; MCAD_POINT p; if( alt ) { ok = h->GetConicEnd( p ); a = p.x; b = p.y; } else ok = h->GetConicEnd( a, b, c ); v = num( a ) + "," + num( b ); return ok; ) },
    { 120, "angles", S( DLL_IGES_ENTITY_120, double a = val( r ); double b = val( r ); v = num( a ) + "," + num( b ); return h->SetAngles( a, b ); ), G( DLL_IGES_ENTITY_120, double a = 0; double b = 0; bool ok = h->GetAngles( a, b ); v = num( a ) + "," + num( b ); return ok; ) },
    { 124, "matrix", S( DLL_IGES_ENTITY_124, MCAD_TRANSFORM t; t.T.x = val( r ); t.T.y = val( r ); t.T.z = val( r ); v = num3( t.T.x, t.T.y, t.T.z ); if( r.below( 2 ) ) return h->SetRootTransform( &t ); return h->SetRootTransform( t ); ),
      G( DLL_IGES_ENTITY_124, MCAD_TRANSFORM t; bool ok = h->GetRootTransform( t ); v = num3( t.T.x, t.T.y, t.T.z ); return ok; ) },
    { 126, "curve", S( DLL_IGES_ENTITY_126, double k[4] = { 0, 0, 1, 1 }; double c[6]; for( auto& x : c ) { x = val( r ); v += num( x ) + ","; } return h->SetNURBSData( 2, 2, k, c, false, 0, 1 ); ),
      G( DLL_IGES_ENTITY_126, int n = 0; int o = 0; double* k = nullptr; double* c = nullptr; bool a = false; bool b = false; bool d = false; double v0 = 0; double v1 = 0;
         bool ok = h->GetNURBSData( n, o, &k, &c, a, b, d, v0, v1 ); if( ok && n == 2 && c ) for( int i = 0; i < 6; ++i ) v += num( c[i] ) + ","; return ok; ) },
    { 128, "surface", S( DLL_IGES_ENTITY_128, double k[4] = { 0, 0, 1, 1 }; double c[12]; for( auto& x : c ) { x = val( r ); v += num( x ) + ","; } return h->SetNURBSData( 2, 2, 2, 2, k, k, c, false, false, false, 0, 1, 0, 1 ); ),
      G( DLL_IGES_ENTITY_128, int n = 0; int m = 0; int o = 0; int p = 0; double* k = nullptr; double* l = nullptr; double* c = nullptr; bool a = false; bool b = false; bool d = false; bool e = false; bool f = false; double v0 = 0; double v1 = 0; double u0 = 0; double u1 = 0;
         bool ok = h->GetNURBSData( n, m, o, p, &k, &l, &c, a, b, d, e, f, u0, u1, v0, v1 ); if( ok && n == 2 && m == 2 && c ) for( int i = 0; i < 12; ++i ) v += num( c[i] ) + ","; return ok; ) },
    { 142, "preference", S( DLL_IGES_ENTITY_142, int x = r.below( 4 ); v = std::to_string( x ); return h->SetCurvePreference( (BOUND_CURVE_PREF) x ); ), G( DLL_IGES_ENTITY_142, BOUND_CURVE_PREF x = BOUND_PREF_ANY; bool ok = h->GetCurvePreference( x ); v = std::to_string( (int) x ); return ok; ) },
    { 142, "creation", S( DLL_IGES_ENTITY_142, int x = r.below( 4 ); v = std::to_string( x ); return h->SetCurveCreationFlag( (CURVE_CREATION) x ); ), G( DLL_IGES_ENTITY_142, CURVE_CREATION x = CURVE_CREATE_PROJECTION; bool ok = h->GetCurveCreationFlag( x ); v = std::to_string( (int) x ); return ok; ) },
    { 308, "name", S( DLL_IGES_ENTITY_308, v = strf( "part-%d", (int) r.below( 1000 ) ); return h->SetName( v.c_str() ); ), G( DLL_IGES_ENTITY_308, const char* x = nullptr; bool ok = h->GetName( x ); v = x ? x : ""; return ok; ) },
    { 314, "name", S( DLL_IGES_ENTITY_314, v = strf( "colour-%d", (int) r.below( 1000 ) ); return h->SetName( v.c_str() ); ), G( DLL_IGES_ENTITY_314, const char* x = nullptr; bool ok = h->GetName( x ); v = x ? x : ""; return ok; ) },
    { 314, "colour", S( DLL_IGES_ENTITY_314, double a = r.below( 101 ); double b = r.below( 101 ); double c = r.below( 101 ); v = num3( a, b, c ); return h->SetColor( a, b, c ); ), G( DLL_IGES_ENTITY_314, double a = 0; double b = 0; double c = 0; bool ok = h->GetColor( a, b, c ); v = num3( a, b, c ); return ok; ) },
    { 406, "property", S( DLL_IGES_ENTITY_406, v = strf( "property-%d", (int) r.below( 1000 ) ); return h->SetProperty_Name( v.c_str() ); ), G( DLL_IGES_ENTITY_406, const char* x = h->GetProperty_Name(); v = x ? x : ""; return x != nullptr; ) },
    { 408, "placement", S( DLL_IGES_ENTITY_408, double a = val( r ); double b = val( r ); double c = val( r ); double s = 1 + r.below( 4 ); v = num3( a, b, c ) + "," + num( s ); return h->SetSubfigParams( a, b, c, s ); ),
      G( DLL_IGES_ENTITY_408, double a = 0; double b = 0; double c = 0; double s = 0; bool ok = h->GetSubfigParams( a, b, c, s ); v = num3( a, b, c ) + "," + num( s ); return ok; ) },
};
int attrNo( const char* n );
const int NA = sizeof ATTR / sizeof *ATTR;

int attrNo( const char* n ) { for( int i = 0; i < NA; ++i ) if( !strcmp( ATTR[i].name, n ) ) return i; return -1; }
// ----- single references
struct Ref
{
    int type; std::vector<int> from; const char* name; std::vector<int> to;
    bool ( *set )( H*, H*, IGES_ENTITY* );      // the second handle, and what it holds
    bool ( *get )( H*, IGES_ENTITY*& );
};
#define RS( T, ... ) []( H* h0, H* t, IGES_ENTITY* e ) -> bool { T* h = (T*) h0; (void) t; (void) e; __VA_ARGS__ }
#define RG( T, ... ) []( H* h0, IGES_ENTITY*& e ) -> bool { T* h = (T*) h0; __VA_ARGS__ }
const Ref REF[] = {
    { 0, { 100, 102, 104, 110, 126, 408 }, "transform", { 124 }, RS( H, return g_raw ? h->SetTransform( e ) : h->SetTransform( *t ); ), RG( H, return h->GetTransform( e ); ) },
    { 0, { 100, 102, 104, 110, 126 }, "colour entity", { 314 }, RS( H, return g_raw ? h->SetColor( e ) : h->SetColor( *(DLL_IGES_ENTITY_314*) t ); ), RG( H, return h->GetColorEntity( e ); ) },
    { 120, { 120 }, "axis", { 110 }, RS( DLL_IGES_ENTITY_120, return g_raw ? h->SetAxis( dynamic_cast<IGES_CURVE*>( e ) ) : h->SetAxis( *(DLL_IGES_CURVE*) t ); ), RG( DLL_IGES_ENTITY_120, IGES_CURVE* c = nullptr; bool ok = h->GetAxis( &c ); e = c; return ok; ) },
    { 120, { 120 }, "generatrix", { 100, 110 }, RS( DLL_IGES_ENTITY_120, return g_raw ? h->SetGeneratrix( dynamic_cast<IGES_CURVE*>( e ) ) : h->SetGeneratrix( *(DLL_IGES_CURVE*) t ); ), RG( DLL_IGES_ENTITY_120, IGES_CURVE* c = nullptr; bool ok = h->GetGeneratrix( &c ); e = c; return ok; ) },
    { 122, { 122 }, "directrix", { 100, 110, 104 }, RS( DLL_IGES_ENTITY_122, return h->SetDirectrix( dynamic_cast<IGES_CURVE*>( e ) ); ), RG( DLL_IGES_ENTITY_122, IGES_CURVE* c = nullptr; bool ok = h->GetDirectrix( c ); e = c; return ok; ) },
    { 142, { 142 }, "surface", { 120, 122, 128 }, RS( DLL_IGES_ENTITY_142, return g_raw ? h->SetSurface( e ) : h->SetSurface( *t ); ), RG( DLL_IGES_ENTITY_142, return h->GetSurface( &e ); ) },
    { 142, { 142 }, "parameter curve", { 126, 102, 110 }, RS( DLL_IGES_ENTITY_142, return g_raw ? h->SetParameterSpaceBound( e ) : h->SetParameterSpaceBound( *t ); ), RG( DLL_IGES_ENTITY_142, return h->GetParameterSpaceBound( &e ); ) },
    { 142, { 142 }, "model curve", { 126, 102, 110 }, RS( DLL_IGES_ENTITY_142, return g_raw ? h->SetModelSpaceBound( e ) : h->SetModelSpaceBound( *t ); ), RG( DLL_IGES_ENTITY_142, return h->GetModelSpaceBound( &e ); ) },
    { 144, { 144 }, "surface", { 120, 122, 128 }, RS( DLL_IGES_ENTITY_144, return g_raw ? h->SetSurface( e ) : h->SetSurface( *t ); ), RG( DLL_IGES_ENTITY_144, return h->GetSurface( e ); ) },
    { 144, { 144 }, "boundary", { 142 }, RS( DLL_IGES_ENTITY_144, return g_raw ? h->SetBoundCurve( dynamic_cast<IGES_ENTITY_142*>( e ) ) : h->SetBoundCurve( *(DLL_IGES_ENTITY_142*) t ); ), RG( DLL_IGES_ENTITY_144, IGES_ENTITY_142* c = nullptr; bool ok = h->GetBoundCurve( c ); e = c; return ok; ) },
    { 408, { 408 }, "subfigure", { 308 }, RS( DLL_IGES_ENTITY_408, return g_raw ? h->SetDE( dynamic_cast<IGES_ENTITY_308*>( e ) ) : h->SetSubfigure( dynamic_cast<IGES_ENTITY_308*>( e ) ); ), RG( DLL_IGES_ENTITY_408, IGES_ENTITY_308* c = nullptr; IGES_ENTITY_308* c2 = nullptr; bool ok = h->GetSubfigure( c ) && h->GetDE( c2 ) && c == c2; e = c; return ok; ) },
};
const int NR = sizeof REF / sizeof *REF;
// ----- lists of references
struct Lst
{
    int type; std::vector<int> from; const char* name; std::vector<int> to;
    bool ( *add )( H*, H* );
    bool ( *del )( H*, H* );
    bool ( *get )( H*, std::vector<IGES_ENTITY*>& );
};
const Lst LST[] = {
    { 0, { 100, 110, 126, 308, 408, 144 }, "optional entities", { 406 }, []( H* h, H* t ) { return g_raw ? h->AddOptionalEntity( t->GetRawPtr() ) : h->AddOptionalEntity( *t ); }, []( H* h, H* t ) { return g_raw ? h->DelOptionalEntity( t->GetRawPtr() ) : h->DelOptionalEntity( *t ); },
      []( H* h, std::vector<IGES_ENTITY*>& l ) { int n = -1; size_t z = 77; IGES_ENTITY** p = nullptr; bool ok = h->GetNOptionalEntities( n ); if( !ok ) return false; h->GetOptionalEntities( z, p ); if( n > 0 && (int) z == n ) l.assign( p, p + z ); else for( int i = 0; i < n; ++i ) l.push_back( nullptr ); return true; } },
    { 308, { 308 }, "members", { 100, 110, 122, 144 }, []( H* h, H* t ) { return g_raw ? ( (DLL_IGES_ENTITY_308*) h )->AddDE( t->GetRawPtr() ) : ( (DLL_IGES_ENTITY_308*) h )->AddDE( t ); }, []( H* h, H* t ) { return g_raw ? ( (DLL_IGES_ENTITY_308*) h )->DelDE( t->GetRawPtr() ) : ( (DLL_IGES_ENTITY_308*) h )->DelDE( t ); },
      []( H* h, std::vector<IGES_ENTITY*>& l ) { size_t n = 0; size_t z = 77; IGES_ENTITY** p = nullptr; DLL_IGES_ENTITY_308* d = (DLL_IGES_ENTITY_308*) h; bool ok = d->GetNumDE( n ); if( !ok ) return false; d->GetDEList( z, p ); if( n > 0 && z == n ) l.assign( p, p + z ); else for( size_t i = 0; i < n; ++i ) l.push_back( nullptr ); return true; } },
    { 144, { 144 }, "cutouts", { 142 }, []( H* h, H* t ) { return g_raw ? ( (DLL_IGES_ENTITY_144*) h )->AddCutout( (IGES_ENTITY_142*) t->GetRawPtr() ) : ( (DLL_IGES_ENTITY_144*) h )->AddCutout( *(DLL_IGES_ENTITY_142*) t ); }, []( H* h, H* t ) { return g_raw ? ( (DLL_IGES_ENTITY_144*) h )->DelCutout( (IGES_ENTITY_142*) t->GetRawPtr() ) : ( (DLL_IGES_ENTITY_144*) h )->DelCutout( *(DLL_IGES_ENTITY_142*) t ); },
      []( H* h, std::vector<IGES_ENTITY*>& l ) { int n = 0; size_t z = 77; IGES_ENTITY_142** p = nullptr; DLL_IGES_ENTITY_144* d = (DLL_IGES_ENTITY_144*) h; bool ok = d->GetNCutouts( n ); if( !ok ) return false; d->GetCutouts( z, p ); if( n > 0 && (int) z == n ) l.assign( p, p + z ); else for( int i = 0; i < n; ++i ) l.push_back( nullptr ); return true; } },
    { 102, { 102 }, "segments", { 100, 104, 110, 126 }, []( H* h, H* t ) { return g_raw ? ( (DLL_IGES_ENTITY_102*) h )->AddSegment( dynamic_cast<IGES_CURVE*>( t->GetRawPtr() ) ) : ( (DLL_IGES_ENTITY_102*) h )->AddSegment( *(DLL_IGES_CURVE*) t ); }, nullptr,
      []( H* h, std::vector<IGES_ENTITY*>& l ) { DLL_IGES_ENTITY_102* d = (DLL_IGES_ENTITY_102*) h; int n = d->GetNCurves(); if( n < 0 || d->GetNSegments() != n ) return false; for( int i = 0; i < n; ++i ) l.push_back( d->GetCurve( i ) ); return !d->GetCurve( -1 ) && !d->GetCurve( n ); } },
};
const int SEGMENTS = 3;
const int NL = sizeof LST / sizeof *LST;

// everything else that takes no arguments worth modelling: must fail on a dead handle
const char* DeadCall( H* h, int which, H* other )
{
    int i = 0; bool b = false; IGES_ENTITY* e = nullptr; IGES* g = nullptr; size_t z = 0; char const** cl = nullptr; const char* c = "remark";
    IGES_LINEFONT_PATTERN lf; IGES_COLOR col; IGES_STAT_DEPENDS sd; IGES_STAT_USE su; IGES_STAT_HIER sh; IGES_ENTITY** el = nullptr;
#define CALL( n, x ) case n: return ( x ) ? #x : nullptr;
    switch( which )
    {
        CALL( 0, h->GetNComments( i ) ) CALL( 1, h->GetComments( z, cl ) ) CALL( 2, h->AddComment( c ) ) CALL( 3, h->DelComment( 0 ) ) CALL( 4, h->ClearComments() )
        CALL( 5, h->GetParentIGES( g ) ) CALL( 6, h->GetEntityType( i ) ) CALL( 7, h->GetEntityForm( i ) ) CALL( 8, h->SetEntityForm( 0 ) ) CALL( 9, h->SetStructure( *other ) )
        CALL( 10, h->GetStructure( e ) ) CALL( 11, h->SetLineFontPattern( LINEFONT_SOLID ) ) CALL( 12, h->SetLineFontPattern( *other ) ) CALL( 13, h->GetLineFontPattern( lf ) ) CALL( 14, h->GetLineFontPatternEntity( e ) )
        CALL( 15, h->SetLevel( 3 ) ) CALL( 16, h->SetLevel( *other ) ) CALL( 17, h->GetLevel( i ) ) CALL( 18, h->GetLevelEntity( e ) ) CALL( 19, h->SetView( *other ) ) CALL( 20, h->GetView( e ) )
        CALL( 21, h->SetTransform( *other ) ) CALL( 22, h->GetTransform( e ) ) CALL( 23, h->SetLabelAssoc( *other ) ) CALL( 24, h->GetLabelAssoc( e ) ) CALL( 25, h->SetColor( COLOR_RED ) ) CALL( 26, h->GetColor( col ) )
        CALL( 27, h->GetColorEntity( e ) ) CALL( 28, h->SetLineWeightNum( 1 ) ) CALL( 29, h->GetLineWeightNum( i ) ) CALL( 30, h->SetDependency( STAT_INDEPENDENT ) ) CALL( 31, h->GetDependency( sd ) )
        CALL( 32, h->SetEntityUse( STAT_USE_GEOMETRY ) ) CALL( 33, h->GetEntityUse( su ) ) CALL( 34, h->SetHierarchy( STAT_HIER_ALL_SUB ) ) CALL( 35, h->GetHierarchy( sh ) ) CALL( 36, h->AddOptionalEntity( *other ) )
        CALL( 37, h->DelOptionalEntity( *other ) ) CALL( 38, h->GetOptionalEntities( z, el ) ) CALL( 39, h->SetParentIGES( (IGES*) nullptr ) ) CALL( 40, h->SetLabel( nullptr ) )
        CALL( 41, h->GetRawPtr() != nullptr ) CALL( 42, h->Detach() != nullptr ) CALL( 43, h->Attach( nullptr ) ) CALL( 44, h->GetVisibility( b ) )
        default: break;
    }
    MCAD_POINT p; IGES_CURVE* q = nullptr; DLL_IGES_CURVE* dc = dynamic_cast<DLL_IGES_CURVE*>( h );
    if( dc ) switch( which )
    {
        CALL( 45, dc->IsClosed() ) CALL( 46, dc->GetNCurves() != 0 ) CALL( 47, ( q = dc->GetCurve( 0 ) ) != nullptr ) CALL( 48, dc->GetStartPoint( p ) ) CALL( 49, dc->GetEndPoint( p ) ) CALL( 50, dc->GetNSegments() != 0 )
    }
    if( DLL_IGES_ENTITY_102* x = dynamic_cast<DLL_IGES_ENTITY_102*>( h ) ) switch( which ) { CALL( 51, x->AddSegment( nullptr ) ) }
    if( DLL_IGES_ENTITY_126* x = dynamic_cast<DLL_IGES_ENTITY_126*>( h ) ) switch( which ) { CALL( 52, x->IsPlanar( b ) ) CALL( 53, x->IsRational( b ) ) CALL( 54, x->isPeriodic( b ) ) CALL( 55, x->GetNormal( p ) ) }
    if( DLL_IGES_ENTITY_128* x = dynamic_cast<DLL_IGES_ENTITY_128*>( h ) ) switch( which ) { CALL( 52, x->isClosed1( b ) ) CALL( 53, x->IsRational( b ) ) CALL( 54, x->isPeriodic1( b ) ) CALL( 55, x->isPeriodic2( b ) ) CALL( 56, x->isClosed2( b ) ) }
    if( DLL_IGES_ENTITY_308* x = dynamic_cast<DLL_IGES_ENTITY_308*>( h ) ) switch( which ) { CALL( 52, x->GetNestDepth( i ) ) CALL( 53, x->SetName( "x" ) ) CALL( 54, x->DelDE( (IGES_ENTITY*) nullptr ) ) CALL( 55, x->AddDE( (IGES_ENTITY*) nullptr ) ) }
    if( DLL_IGES_ENTITY_314* x = dynamic_cast<DLL_IGES_ENTITY_314*>( h ) ) switch( which ) { CALL( 52, x->SetName( nullptr ) ) }
    if( DLL_IGES_ENTITY_406* x = dynamic_cast<DLL_IGES_ENTITY_406*>( h ) ) switch( which ) { CALL( 52, x->SetProperty_Name( nullptr ) ) CALL( 53, x->GetProperty_Name() != nullptr ) }
#undef CALL
    return nullptr;
}
const int NDEAD = 57;

// ----- documents
struct Glob { const char* name; bool ( DLL_IGES::*set )( char const* ); bool ( DLL_IGES::*get )( char const*& ); };
const Glob GLOB[] = {
    { "sending system", &DLL_IGES::SetProductID_SendingSystem, &DLL_IGES::GetProductID_SendingSystem },
    { "native system", &DLL_IGES::SetNativeSystemID, &DLL_IGES::GetNativeSystemID },
    { "receiving system", &DLL_IGES::SetProductID_ReceivingSystem, &DLL_IGES::GetProductID_ReceivingSystem },
    { "author", &DLL_IGES::SetAuthor, &DLL_IGES::GetAuthor },
    { "organisation", &DLL_IGES::SetOrganization, &DLL_IGES::GetOrganization },
    { "application note", &DLL_IGES::SetApplicationNote, &DLL_IGES::GetApplicationNote },
};
const int NG = 6;

struct Ent
{
    int type = 0;
    IGES_ENTITY* p = nullptr;
    int doc = -1;               // owner, -1: none
    std::unique_ptr<bool> alive{ new bool( false ) };
    bool gone = false;          // deleted by a call that says so
    bool opaque = false;        // references not modelled (made by Export)
    std::map<int, std::string> v;                   // attribute -> value
    std::map<int, int> ref;                         // reference -> entity
    std::map<int, std::vector<int>> lst;
    std::vector<std::string> comments;
};
struct Doc
{
    DLL_IGES* d = nullptr;
    IGES* raw = nullptr;
    bool alive = false;         // the wrapped document exists
    std::map<int, std::string> g;
    std::map<int, double> num;  // 0 units, 1 gradations, 2 widest line, 3 resolution, 4 drafting standard
    std::vector<std::string> head;
};
struct Hdl { H* h = nullptr; int type = 0; int ent = -1; int doc = -1; };

struct World
{
    std::vector<Ent> e;
    std::vector<Doc> d;
    std::vector<Hdl> h;
    ~World()
    {
        for( auto& x : h ) delete x.h;
        std::vector<IGES_ENTITY*> left;
        for( auto& x : e ) if( x.p && *x.alive && x.doc < 0 ) left.push_back( x.p );
        for( auto* p : left ) delete p;
        for( auto& x : d ) { if( x.d ) delete x.d; }
        for( auto& x : e ) x.alive.release();       // the flags may outlive a failed run
    }
    bool live( int i ) const { return i >= 0 && !e[i].gone && *e[i].alive; }
    bool valid( const Hdl& x ) const { return live( x.ent ); }
    int add( IGES_ENTITY* p, int type, int doc )
    {
        Ent x; x.type = type; x.p = p; x.doc = doc;
        e.push_back( std::move( x ) );
        p->AttachValidFlag( e.back().alive.get() );
        return (int) e.size() - 1;
    }
    bool refers( int a, int b ) const
    {
        for( auto& r : e[a].ref ) if( r.second == b ) return true;
        for( auto& l : e[a].lst ) for( int x : l.second ) if( x == b ) return true;
        return false;
    }
    bool reaches( int a, int b ) const
    {
        if( a == b ) return true;
        for( auto& r : e[a].ref ) if( reaches( r.second, b ) ) return true;
        for( auto& l : e[a].lst ) for( int x : l.second ) if( reaches( x, b ) ) return true;
        return false;
    }
    void forget( int i )        // associations of a deleted entity
    {
        for( auto& x : e )
        {
            for( auto r = x.ref.begin(); r != x.ref.end(); ) if( r->second == i ) r = x.ref.erase( r ); else ++r;
            // a composite curve which loses a segment in between falls apart
            auto sg = x.lst.find( SEGMENTS );
            if( sg != x.lst.end() && sg->second.size() > 1 && sg->second.front() != i && sg->second.back() != i && std::count( sg->second.begin(), sg->second.end(), i ) ) sg->second.clear();
            for( auto& l : x.lst ) l.second.erase( std::remove( l.second.begin(), l.second.end(), i ), l.second.end() );
        }
        e[i].ref.clear(); e[i].lst.clear();
    }
    void kill( int i ) { if( !e[i].gone ) { e[i].gone = true; forget( i ); } }
    void killDoc( int k ) { for( size_t i = 0; i < e.size(); ++i ) if( e[i].doc == k ) kill( i ); }
    // entities a call was allowed to delete
    // without these parts an entity means nothing and may be culled even if it is referred to
    bool incomplete( int i ) const
    {
        // parts that went away in the same sweep do not count
        auto has1 = [&]( int a ) { auto q = e[i].ref.find( a ); return q != e[i].ref.end() && *e[q->second].alive; };
        switch( e[i].type )
        {
            case 406: return true;      // never filled here
            case 102: { auto l = e[i].lst.find( SEGMENTS ); if( l != e[i].lst.end() ) for( int x : l->second ) if( *e[x].alive ) return false; return true; }
            case 120: return !has1( 2 ) || !has1( 3 );
            case 122: return !has1( 4 );
            case 142: return !has1( 5 ) || ( !has1( 6 ) && !has1( 7 ) );
            case 144: return !has1( 8 );
            case 308: { auto l = e[i].lst.find( 1 ); if( l != e[i].lst.end() ) for( int x : l->second ) if( *e[x].alive ) return false; return true; }
            case 408: return !has1( 10 );
            default: return false;
        }
    }
    void swept( int k )
    {
        for( size_t i = 0; i < e.size(); ++i )
        {
            if( e[i].doc != k || e[i].gone || *e[i].alive ) continue;
            for( size_t j = 0; j < e.size(); ++j )
                if( !incomplete( i ) && live( j ) && refers( j, i ) ) fail( "deleted", strf( "entity %zu (type %d) was culled while entity %zu (type %d) refers to it", i, e[i].type, j, e[j].type ) );
        }
        for( size_t i = 0; i < e.size(); ++i ) if( e[i].doc == k && !e[i].gone && !*e[i].alive ) kill( i );
    }
    int find( IGES_ENTITY* p ) const { for( size_t i = 0; i < e.size(); ++i ) if( live( i ) && e[i].p == p ) return i; return -1; }
};

template<class C> bool has( const C& c, int t ) { return std::find( c.begin(), c.end(), t ) != c.end(); }

// what a handle says is what the entity says
void agree( H* h, IGES_ENTITY* p )
{
    auto bad = [&]( const char* what ) { fail( "handle-answer", strf( "type %d: %s differs from the answer of the entity", p->GetEntityType(), what ) ); };
    auto same = []( const MCAD_POINT& a, const MCAD_POINT& b ) { return a.x == b.x && a.y == b.y && a.z == b.z; };
    bool a, b;
    if( DLL_IGES_CURVE* d = dynamic_cast<DLL_IGES_CURVE*>( h ) )
    {
        IGES_CURVE* c = static_cast<IGES_CURVE*>( p );
        for( int z = 0; z < 4; ++z )
        {
            MCAD_POINT u( 1, 2, 3 ), v( 1, 2, 3 );
            a = z & 1 ? d->GetStartPoint( u, z & 2 ) : d->GetEndPoint( u, z & 2 );
            b = z & 1 ? c->GetStartPoint( v, z & 2 ) : c->GetEndPoint( v, z & 2 );
            if( a != b || !same( u, v ) ) bad( z & 1 ? "GetStartPoint()" : "GetEndPoint()" );
        }
        if( d->IsClosed() != c->IsClosed() ) bad( "IsClosed()" );
        if( d->GetNCurves() != c->GetNCurves() || d->GetNSegments() != c->GetNSegments() || d->GetCurve( 0 ) != c->GetCurve( 0 ) ) bad( "the number of curves" );
    }
    switch( p->GetEntityType() )
    {
        case 124:
        {
            MCAD_TRANSFORM t, u = static_cast<IGES_ENTITY_124*>( p )->GetTransformMatrix();
            if( !( (DLL_IGES_ENTITY_124*) h )->GetOverallTransform( t ) || !same( t.T, u.T ) || memcmp( t.R.v, u.R.v, sizeof t.R.v ) ) bad( "GetOverallTransform()" );
            break;
        }
        case 126:
        {
            auto* d = (DLL_IGES_ENTITY_126*) h; auto* c = static_cast<IGES_ENTITY_126*>( p );
            MCAD_POINT u, v;
            if( !d->IsPlanar( a ) || a != c->IsPlanar() || !d->IsRational( b ) || b != c->IsRational() || !d->isPeriodic( a ) || a != c->isPeriodic() || d->GetNormal( u ) != c->GetNormal( v ) || !same( u, v ) ) bad( "a property" );
            break;
        }
        case 128:
        {
            auto* d = (DLL_IGES_ENTITY_128*) h; auto* c = static_cast<IGES_ENTITY_128*>( p );
            if( !d->IsRational( a ) || a != c->IsRational() || !d->isClosed1( a ) || a != c->isClosed1() || !d->isClosed2( a ) || a != c->isClosed2() || !d->isPeriodic1( a ) || a != c->isPeriodic1() || !d->isPeriodic2( a ) || a != c->isPeriodic2() ) bad( "a property" );
            break;
        }
    }
}

// asking a handle for what it leads to may also make it forget what died: not always
void check( World& w, bool peek )
{
    for( size_t i = 0; i < w.e.size(); ++i )
        if( w.e[i].gone != !*w.e[i].alive )
            fail( w.e[i].gone ? "flag-not-cleared" : "deleted", strf( "entity %zu (type %d) %s", i, w.e[i].type, w.e[i].gone ? "was deleted but counts as valid" : "was deleted by a call that should not delete it" ) );
    int k = 0;
    for( auto& x : w.h )
    {
        ++k;
        if( !x.h ) continue;
        bool want = w.valid( x );
        if( x.h->IsValid() != want ) fail( want ? "handle-invalid" : "handle-stale", strf( "handle %d of type %d says %s", k - 1, x.type, want ? "invalid although its entity lives" : "valid although its entity is gone" ) );
        if( x.h->GetEntityType() != x.type ) fail( "handle-type", strf( "handle %d of type %d", k - 1, x.type ) );
        if( !want ) continue;
        Ent& e = w.e[x.ent];
        if( x.h->GetRawPtr() != e.p ) fail( "handle-target", strf( "handle %d leads to another entity", k - 1 ) );
        for( auto& v : e.v )
            for( int alt = 0; alt < 2; ++alt )
            {
                std::string got;
                bool ok = ATTR[v.first].get( x.h, got, alt );
                if( !ok || got != v.second ) fail( "value", strf( "type %d %s: %s instead of %s%s", e.type, ATTR[v.first].name, got.c_str(), v.second.c_str(), ok ? "" : " (refused)" ) );
            }
        agree( x.h, e.p );
        int n = -1;
        IGES* par = (IGES*) 1;
        if( !x.h->GetParentIGES( par ) || par != ( e.doc < 0 ? nullptr : w.d[e.doc].raw ) ) fail( "parent", strf( "entity of type %d: wrong document", e.type ) );
        if( !x.h->GetNComments( n ) || n != (int) e.comments.size() ) fail( "comments", strf( "%d comments instead of %zu", n, e.comments.size() ) );
        if( n )
        {
            size_t z = 0; char const** cl = nullptr;
            if( !x.h->GetComments( z, cl ) || z != e.comments.size() ) fail( "comments", "list" );
            for( int i = 0; i < n; ++i ) if( e.comments[i] != cl[i] ) fail( "comments", strf( "comment %d", i ) );
        }
        if( e.opaque ) continue;
        for( int i = 0; i < NR; ++i )
        {
            if( !has( REF[i].from, e.type ) ) continue;
            IGES_ENTITY* q = nullptr;
            REF[i].get( x.h, q );
            auto r = e.ref.find( i );
            if( q != ( r == e.ref.end() ? nullptr : w.e[r->second].p ) ) fail( "reference", strf( "type %d: %s %s", e.type, REF[i].name, q ? "leads to another entity" : "is missing" ) );
        }
        for( int i = 0; i < NL; ++i )
        {
            if( !has( LST[i].from, e.type ) ) continue;
            std::vector<IGES_ENTITY*> q;
            bool ok = LST[i].get( x.h, q );
            auto& l = e.lst[i];
            bool same = ok && q.size() == l.size();
            for( size_t j = 0; same && j < l.size(); ++j ) same = q[j] == w.e[l[j]].p;
            if( !same ) fail( "reference-list", strf( "type %d: %s: %zu instead of %zu entries", e.type, LST[i].name, q.size(), l.size() ) );
        }
    }
    k = 0;
    for( auto& x : w.d )
    {
        ++k;
        if( !x.d ) continue;
        if( ( x.alive || peek ) && x.d->GetRawPtr() != ( x.alive ? x.raw : nullptr ) ) fail( "document-handle", strf( "document %d", k - 1 ) );
        for( int i = 0; i < NG; ++i )
        {
            const char* s = (const char*) 1;
            bool ok = ( x.d->*GLOB[i].get )( s );
            if( ok != x.alive ) fail( "document-call", strf( "%s: %s", GLOB[i].name, ok ? "answered by a deleted document" : "refused" ) );
            if( !x.alive || !x.g.count( i ) ) continue;
            std::string want = x.g[i];
            if( i == 2 && want.empty() && x.g.count( 0 ) ) want = x.g[0];
            if( i == 2 && want.empty() ) continue;
            if( want != ( s ? s : "" ) ) fail( "document-value", strf( "%s: %s instead of %s", GLOB[i].name, s ? s : "(null)", want.c_str() ) );
        }
        if( x.alive )
        {
            const IGES_GLOBAL& G = x.raw->globalData;
            IGES_UNIT u = (IGES_UNIT) 99; int lg = -7, vf = -7; double lw = -7, mr = -7; IGES_DRAFTING_STANDARD ds = (IGES_DRAFTING_STANDARD) 99; const char *un = nullptr, *cd = nullptr, *md = nullptr, *pv = nullptr;
            if( !x.d->GetUnitsFlag( u ) || u != G.unitsFlag || !x.d->GetMaxLineWidthGrad( lg ) || lg != G.maxLinewidthGrad || !x.d->GetMaxLineWidth( lw ) || lw != G.maxLinewidth || !x.d->GetMinResolution( mr ) || mr != G.minResolution
                || !x.d->GetIGESVersionFlag( vf ) || vf != G.igesVersion || !x.d->GetDraftingStandard( ds ) || ds != G.draftStandard || !x.d->GetUnitsName( un ) || std::string( un ) != x.raw->GetUnitName()
                || !x.d->GetCreationDate( cd ) || G.creationDate != cd || !x.d->GetModificationDate( md ) || G.modificationDate != md || !x.d->GetPreprocessorVersion( pv ) || G.preprocessorVersion != pv )
                fail( "document-value", "a global value differs from that of the document" );
            static const char* const UN[12] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
            if( u != 3 && u > 0 && u < 12 && std::string( un ) != UN[u] ) fail( "document-value", strf( "units %d are called %s", (int) u, un ) );
            double now[5] = { (double) u, (double) lg, lw, mr, (double) ds };
            for( auto& q : x.num ) if( now[q.first] != q.second ) fail( "document-value", strf( "global number %d is %.17g instead of %.17g", q.first, now[q.first], q.second ) );
        }
        if( x.d->GetNHeaderLines() != ( x.alive ? x.head.size() : 0 ) ) fail( "header-lines", strf( "%zu instead of %zu", x.d->GetNHeaderLines(), x.head.size() ) );
    }
}

const char* const OPS[] = { "newdoc", "killdoc", "killraw", "clear", "handle", "handle", "handle", "api", "attach", "attach", "detach", "drop", "delete", "docdelete", "again", "host", "unlink", "join",
                            "set", "set", "set", "set", "ref", "ref", "ref", "ref", "ref", "list", "list", "list", "list", "unlist", "unref", "comment", "cull", "write", "export", "global", "number", "header", "dead", "dead", "refuse" };

void runEntities( const Script& s )
{
    World w;
    int moved = 0, shared = 0;
    for( auto& op : s.ops )
    {
        step();
        Rng r( op.u64( "r" ) );
        const std::string& o = op.name;
        auto anyDoc = [&]() -> int { return w.d.empty() ? -1 : (int) r.below( w.d.size() ); };
        auto anyHdl = [&]( bool alive ) -> int { std::vector<int> c; for( size_t i = 0; i < w.h.size(); ++i ) if( w.h[i].h && ( !alive || w.valid( w.h[i] ) ) ) c.push_back( i ); return c.empty() ? -1 : r.pick( c ); };
        auto anyEnt = [&]() -> int { std::vector<int> c; for( size_t i = 0; i < w.e.size(); ++i ) if( w.live( i ) ) c.push_back( i ); return c.empty() ? -1 : r.pick( c ); };
        auto hosted = [&]( const Hdl& x ) { return x.doc >= 0 && w.d[x.doc].alive; };
        // seam::arm() is only needed where the disk is used
        if( o == "newdoc" )
        {
            if( std::count_if( w.d.begin(), w.d.end(), []( const Doc& q ) { return q.d != nullptr; } ) >= 4 ) continue;
            Doc x; x.d = new DLL_IGES; x.raw = x.d->GetRawPtr(); x.alive = true;
            REQUIRE( x.raw, "document-handle", "no document" );
            w.d.push_back( x );
        }
        else if( o == "killdoc" || o == "killraw" || o == "clear" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            Doc& x = w.d[k];
            if( o == "clear" )
            {
                bool ok = x.d->Clear();
                REQUIRE( ok == x.alive, "document-call", "Clear()" );
                if( !ok ) continue;
                w.killDoc( k ); x.g.clear(); x.num.clear(); x.head.clear();
            }
            else if( o == "killdoc" )
            {
                if( x.alive ) w.killDoc( k );
                delete x.d; x.d = nullptr; x.alive = false;
                ++g_stats.probes["document-destroyed"];
            }
            else
            {
                if( !x.alive ) continue;
                w.killDoc( k );
                delete x.raw; x.raw = nullptr; x.alive = false;
                ++g_stats.probes["document-destroyed-behind-handle"];
            }
        }
        else if( o == "handle" )
        {
            if( w.h.size() >= 40 || std::count_if( w.h.begin(), w.h.end(), []( const Hdl& q ) { return q.h != nullptr; } ) >= 24 ) continue;
            Hdl x; x.type = TYPES[r.below( NT )];
            int k = anyDoc();
            if( r.below( 2 ) ) for( size_t q = 0; q < w.d.size(); ++q ) if( w.d[q].alive ) { k = q; break; }
            if( r.below( 6 ) == 0 ) k = -1;
            bool create = r.below( 4 ) != 0;
            DLL_IGES* d = nullptr; IGES* raw = nullptr;
            if( k >= 0 && w.d[k].alive ) { if( r.below( 2 ) ) d = w.d[k].d; else raw = w.d[k].raw; if( !d && !raw ) k = -1; }
            else if( k >= 0 && w.d[k].d ) d = w.d[k].d, k = -1;         // wrapper of a deleted document
            else k = -1;
            x.doc = k;
            x.h = make( x.type, raw, d, create );
            bool dead = d && !d->GetRawPtr();
            if( create && dead ) REQUIRE( !x.h->GetRawPtr(), "handle-create", strf( "type %d, in a deleted document", x.type ) );
            if( create && !dead )
            {
                IGES_ENTITY* p = x.h->GetRawPtr();
                REQUIRE( p, "handle-create", strf( "type %d", x.type ) );
                REQUIRE( w.find( p ) < 0, "handle-create", "an existing entity was returned" );
                x.ent = w.add( p, x.type, k );
                if( k < 0 ) ++g_stats.probes["entity-without-document"];
            }
            w.h.push_back( x );
        }
        else if( o == "api" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            H* p = nullptr; int old = -1;
            if( r.below( 2 ) ) { old = anyHdl( false ); if( old >= 0 ) p = w.h[old].h; }
            int t = r.below( 5 ) ? TYPES[r.below( NT )] : r.pick( std::vector<int>{ 154, 180, 186, 502, 514, 0, 116, 7777 } );
            if( t == 406 ) continue;
            bool ok = w.d[k].d->NewAPIEntity( (IGES_ENTITY_TYPE) t, p );
            bool want = w.d[k].alive && has( std::vector<int>( TYPES, TYPES + NT ), t );
            REQUIRE( ok == want, "document-call", strf( "NewAPIEntity(%d) %s", t, ok ? "accepted" : "refused" ) );
            if( old >= 0 )
            {
                // an existing handle is consumed by the call unless the document is gone
                if( w.d[k].alive ) w.h[old].h = nullptr;
                else REQUIRE( p == w.h[old].h, "document-call", "NewAPIEntity() of a deleted document changed the handle" );
            }
            if( !ok ) { REQUIRE( old >= 0 || !p, "document-call", "NewAPIEntity() failed but delivered a handle" ); if( w.d[k].alive ) REQUIRE( !p, "document-call", "NewAPIEntity() failed but delivered a handle" ); }
            else
            {
                Hdl x; x.h = p; x.type = t; x.doc = k;
                x.ent = w.add( p->GetRawPtr(), t, k );
                w.h.push_back( x );
            }
        }
        else if( o == "attach" )
        {
            int i = anyHdl( false ), j = anyEnt();
            if( i < 0 ) continue;
            if( r.below( 3 ) ) { std::vector<int> c; for( size_t q = 0; q < w.e.size(); ++q ) if( w.live( q ) && w.e[q].type == w.h[i].type ) c.push_back( q ); if( !c.empty() ) j = r.pick( c ); }
            if( r.below( 8 ) == 0 ) j = -1;
            bool ok = w.h[i].h->Attach( j < 0 ? nullptr : w.e[j].p );
            bool want = j >= 0 && w.e[j].type == w.h[i].type;
            REQUIRE( ok == want, "attach", strf( "handle of type %d to entity of type %d %s", w.h[i].type, j < 0 ? -1 : w.e[j].type, ok ? "accepted" : "refused" ) );
            if( ok )
            {
                for( size_t q = 0; q < w.h.size(); ++q ) if( (int) q != i && w.h[q].h && w.h[q].ent == j ) { ++shared; ++g_stats.probes["shared"]; break; }
                w.h[i].ent = j;
            }
            else ++g_stats.probes["attach-refused"];
        }
        else if( o == "detach" )
        {
            int i = anyHdl( false );
            if( i < 0 ) continue;
            IGES_ENTITY* p = w.h[i].h->Detach();
            REQUIRE( p == ( w.valid( w.h[i] ) ? w.e[w.h[i].ent].p : nullptr ), "detach", "wrong entity" );
            w.h[i].ent = -1;
        }
        else if( o == "drop" )
        {
            int i = anyHdl( false );
            if( i < 0 ) continue;
            delete w.h[i].h;
            w.h[i].h = nullptr; w.h[i].ent = -1;
        }
        else if( o == "delete" || o == "docdelete" )
        {
            int i = anyHdl( r.below( 4 ) != 0 );
            if( i < 0 ) continue;
            Hdl& x = w.h[i];
            if( o == "delete" )
            {
                bool was = w.valid( x );
                x.h->DelEntity();
                if( was ) w.kill( x.ent );
            }
            else
            {
                int k = anyDoc();
                if( k < 0 || !w.d[k].d ) continue;
                bool want = w.d[k].alive && w.valid( x ) && w.e[x.ent].doc == k;
                bool ok = r.below( 2 ) || !w.valid( x ) ? w.d[k].d->DelEntity( x.h ) : w.d[k].d->DelEntity( w.e[x.ent].p );
                REQUIRE( ok == want, "document-call", strf( "DelEntity() %s", ok ? "accepted" : "refused" ) );
                if( ok ) w.kill( x.ent );
            }
        }
        else if( o == "again" )
        {
            int i = anyHdl( false );
            if( i < 0 ) continue;
            Hdl& x = w.h[i];
            REQUIRE( x.h->NewEntity(), "handle-create", "NewEntity() refused" );
            IGES_ENTITY* p = x.h->GetRawPtr();
            REQUIRE( p && w.find( p ) < 0, "handle-create", "NewEntity() did not create an entity" );
            x.ent = w.add( p, x.type, hosted( x ) ? x.doc : -1 );
        }
        else if( o == "host" )
        {
            int i = anyHdl( false ), k = anyDoc();
            if( i < 0 ) continue;
            if( k < 0 || r.below( 6 ) == 0 ) { w.h[i].h->SetAPIParentIGES( (IGES*) nullptr ); w.h[i].doc = -1; continue; }
            if( !w.d[k].d ) continue;
            if( r.below( 2 ) ) w.h[i].h->SetAPIParentIGES( *w.d[k].d );
            else w.h[i].h->SetAPIParentIGES( w.d[k].alive ? w.d[k].raw : nullptr );
            w.h[i].doc = w.d[k].alive ? k : -1;
        }
        else if( o == "unlink" || o == "join" )
        {
            int i = anyHdl( false ), k = anyDoc();
            if( i < 0 || k < 0 ) continue;
            Hdl& x = w.h[i];
            bool v = w.valid( x );
            if( v && o == "unlink" && w.e[x.ent].doc >= 0 && r.below( 4 ) ) k = w.e[x.ent].doc;
            if( !w.d[k].d ) continue;
            if( o == "unlink" )
            {
                bool want = v && w.d[k].alive && w.e[x.ent].doc == k;
                bool ok = r.below( 2 ) || !v ? w.d[k].d->UnlinkEntity( x.h ) : w.d[k].d->UnlinkEntity( w.e[x.ent].p );
                REQUIRE( ok == want, "document-call", strf( "UnlinkEntity() %s", ok ? "accepted" : "refused" ) );
                if( ok ) { w.e[x.ent].doc = -1; ++moved; ++g_stats.probes["unlinked"]; }
            }
            else
            {
                if( v && w.e[x.ent].doc >= 0 && w.e[x.ent].doc != k ) continue;     // must leave its document first
                bool want = v && w.d[k].alive;
                bool ok = r.below( 2 ) || !v ? w.d[k].d->AddEntity( x.h ) : w.d[k].d->AddEntity( w.e[x.ent].p );
                REQUIRE( ok == want, "document-call", strf( "AddEntity() %s", ok ? "accepted" : "refused" ) );
                if( ok ) { if( w.e[x.ent].doc != k ) { ++moved; ++g_stats.probes["joined"]; } w.e[x.ent].doc = k; }
            }
        }
        else if( o == "set" )
        {
            int i = anyHdl( r.below( 4 ) != 0 );
            if( i < 0 ) continue;
            Hdl& x = w.h[i];
            std::vector<int> c;
            for( int a = 0; a < NA; ++a ) if( !ATTR[a].type || ATTR[a].type == x.type || ( ATTR[a].type < 0 && has( std::vector<int>{ 100, 104, 110, 126 }, x.type ) ) ) { c.push_back( a ); if( ATTR[a].type ) c.push_back( a ), c.push_back( a ); }
            int a = r.pick( c );
            if( has( std::vector<int>{ 124, 308, 314, 406 }, x.type ) && std::string( ATTR[a].name ) == "visibility" ) continue;      // these have none
            if( a == attrNo( "line weight" ) && w.valid( x ) && w.e[x.ent].doc < 0 ) continue;      // counts in units of its document
            std::string v, v2;
            bool ok = ATTR[a].set( x.h, r, v );
            bool want = w.valid( x );
            if( ok != want ) fail( want ? "value-refused" : "dead-handle", strf( "type %d: setting %s %s", x.type, ATTR[a].name, ok ? "accepted" : "refused" ) );
            if( ok && std::string( ATTR[a].name ) == "colour number" ) w.e[x.ent].ref.erase( 1 );
            if( ok ) { w.e[x.ent].v[a] = v; if( x.type == 104 && std::string( ATTR[a].name ) == "start" ) { } }
            else if( ATTR[a].get( x.h, v2, r.below( 2 ) ) ) fail( "dead-handle", strf( "type %d: %s answered", x.type, ATTR[a].name ) );
            trace( strf( "set %d.%s %d", x.type, ATTR[a].name, ok ) );
        }
        else if( o == "ref" || o == "list" )
        {
            int i = anyHdl( r.below( 8 ) != 0 );
            if( i < 0 ) continue;
            bool isRef = o == "ref";
            if( r.below( 4 ) )      // prefer a pair that fits
            {
                std::vector<int> c;
                for( size_t q = 0; q < w.h.size(); ++q )
                {
                    if( !w.h[q].h || !w.valid( w.h[q] ) ) continue;
                    for( int a = 0; a < ( isRef ? NR : NL ); ++a )
                        if( has( isRef ? REF[a].from : LST[a].from, w.h[q].type ) )
                            for( auto& y : w.h )
                                if( y.h && w.valid( y ) && has( isRef ? REF[a].to : LST[a].to, y.type ) && w.e[y.ent].doc == w.e[w.h[q].ent].doc && w.e[y.ent].doc >= 0 && y.ent != w.h[q].ent && !w.refers( w.h[q].ent, y.ent ) ) c.push_back( q );
                }
                if( !c.empty() ) i = r.pick( c );
            }
            Hdl& x = w.h[i];
            std::vector<int> c;
            for( int a = 0; a < ( isRef ? NR : NL ); ++a ) if( has( isRef ? REF[a].from : LST[a].from, x.type ) ) c.push_back( a );
            if( c.empty() ) continue;
            int a = r.pick( c );
            const std::vector<int>& to = isRef ? REF[a].to : LST[a].to;
            std::vector<int> t;
            for( size_t j = 0; j < w.h.size(); ++j ) if( (int) j != i && w.h[j].h && has( to, w.h[j].type ) ) t.push_back( j );
            if( t.empty() ) continue;
            if( w.valid( x ) && r.below( 4 ) )
            {
                std::vector<int> u;
                for( int j : t ) if( w.valid( w.h[j] ) && w.e[w.h[j].ent].doc == w.e[x.ent].doc && !w.refers( x.ent, w.h[j].ent ) ) u.push_back( j );
                if( !u.empty() ) t = u;
            }
            Hdl& y = w.h[r.pick( t )];
            bool vx = w.valid( x ), vy = w.valid( y );
            if( vx && vy )
            {
                // only what a caller may ask for: one document, no duplicates, no cycles
                if( w.e[x.ent].doc < 0 || w.e[x.ent].doc != w.e[y.ent].doc || w.refers( x.ent, y.ent ) || w.reaches( y.ent, x.ent ) || w.e[x.ent].opaque || w.e[y.ent].opaque ) continue;
            }
            else if( vx && isRef && w.e[x.ent].opaque ) continue;
            else if( vx && isRef ) continue;            // clearing is a separate operation
            g_raw = vx && vy && r.below( 2 );
            bool full = !isRef && a == SEGMENTS && vx && vy && !w.e[x.ent].lst[a].empty() && static_cast<IGES_CURVE*>( w.e[x.ent].p )->IsClosed();
            bool ok = isRef ? REF[a].set( x.h, y.h, vy ? w.e[y.ent].p : nullptr ) : LST[a].add( x.h, y.h );
            bool want = vx && vy && !full;
            if( ok ) w.e[y.ent].v.erase( attrNo( "dependency" ) );
            if( ok && isRef && a == 1 ) w.e[x.ent].v.erase( attrNo( "colour number" ) );
            if( ok != want ) fail( want ? "reference-refused" : "dead-handle", strf( "type %d: %s to type %d %s", x.type, isRef ? REF[a].name : LST[a].name, y.type, ok ? "accepted" : "refused" ) );
            if( ok ) { if( isRef ) w.e[x.ent].ref[a] = y.ent; else w.e[x.ent].lst[a].push_back( y.ent ); ++g_stats.probes["associated"]; }
        }
        else if( o == "unlist" )
        {
            int i = anyHdl( true ), j = anyHdl( false );
            if( i < 0 || j < 0 ) continue;
            Hdl& x = w.h[i];
            if( w.e[x.ent].opaque ) continue;
            std::vector<int> c;
            for( int a = 0; a < NL; ++a ) if( has( LST[a].from, x.type ) ) c.push_back( a );
            if( c.empty() ) continue;
            int a = r.pick( c );
            auto& l = w.e[x.ent].lst[a];
            if( !l.empty() && r.below( 3 ) )
                for( size_t q = 0; q < w.h.size(); ++q ) if( w.h[q].h && w.valid( w.h[q] ) && has( l, w.h[q].ent ) ) j = q;
            Hdl& y = w.h[j];
            if( !has( LST[a].to, y.type ) ) continue;
            bool want = w.valid( y ) && has( l, y.ent );
            if( !LST[a].del ) continue;
            g_raw = w.valid( y ) && r.below( 2 );
            bool ok = LST[a].del( x.h, y.h );
            REQUIRE( ok == want, "reference-list", strf( "removing from %s %s", LST[a].name, ok ? "accepted" : "refused" ) );
            if( ok ) { l.erase( std::find( l.begin(), l.end(), y.ent ) ); ++g_stats.probes["dissociated"]; }
        }
        else if( o == "unref" )
        {
            int i = anyHdl( true );
            if( i < 0 ) continue;
            Hdl& x = w.h[i];
            if( w.e[x.ent].opaque || !w.e[x.ent].ref.count( 0 ) ) continue;
            REQUIRE( x.h->SetTransform( (IGES_ENTITY*) nullptr ), "reference-refused", "SetTransform(NULL)" );
            w.e[x.ent].ref.erase( 0 );
        }
        else if( o == "comment" )
        {
            int i = anyHdl( r.below( 4 ) != 0 );
            if( i < 0 ) continue;
            Hdl& x = w.h[i];
            bool v = w.valid( x );
            if( v && w.e[x.ent].comments.size() && r.below( 3 ) == 0 )
            {
                auto& l = w.e[x.ent].comments;
                int n = r.below( l.size() );
                REQUIRE( x.h->DelComment( n ), "comments", "DelComment() refused" );
                l.erase( l.begin() + n );
                continue;
            }
            std::string t = strf( "remark %d", (int) r.below( 10000 ) );
            const char* c = t.c_str();
            REQUIRE( x.h->AddComment( c ) == v, "comments", "AddComment()" );
            if( v ) w.e[x.ent].comments.push_back( t );
        }
        else if( o == "cull" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            bool vicious = r.below( 3 ) == 0;
            IGES_ENTITY* e = nullptr;
            bool alive = false;
            if( w.d[k].alive )
            {   // one that nothing refers to and that depends on another
                REQUIRE( w.d[k].raw->NewEntity( 110, &e ) && e && e->SetDependency( STAT_DEP_PHY ), "document-call", "a new line" );
                e->AttachValidFlag( &alive );
            }
            w.d[k].d->Cull( vicious );
            if( alive ) { e->DetachValidFlag( &alive ); fail( "document-call", "Cull() culled nothing" ); }
            w.swept( k );
        }
        else if( o == "write" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            bool ok;
            { Armed a( op ); ok = w.d[k].d->Write( "/sim/h.igs", true ); }
            REQUIRE( !ok || w.d[k].alive, "document-call", "a deleted document was saved" );
            w.swept( k );
            // saving states which of the two curves counts if there is only one
            for( auto& e : w.e ) if( e.type == 142 && e.doc == k && !( e.ref.count( 6 ) && e.ref.count( 7 ) ) ) for( int a = 0; a < NA; ++a ) if( ATTR[a].type == 142 && std::string( ATTR[a].name ) == "preference" ) e.v.erase( a );
            // saving a document without start section supplies one
            if( w.d[k].alive && w.d[k].head.empty() && w.d[k].d->GetNHeaderLines() == 1 ) w.d[k].head.push_back( "" );
            if( ok )
            {
                size_t n = 0, lines = 0;
                for( auto& e : w.e ) if( !e.gone && e.doc == k ) ++n;
                std::string t = seam::get( "/sim/h.igs" );
                for( size_t i = 0; i + 81 <= t.size(); i += 81 ) if( t[i + 72] == 'D' ) ++lines;
                REQUIRE( lines == 2 * n, "saved-entities", strf( "%zu directory lines for %zu entities", lines, n ) );
                ++g_stats.probes["saved"];
            }
        }
        else if( o == "export" )
        {
            int a = anyDoc(), b = anyDoc();
            if( a < 0 || !w.d[a].d || b < 0 || !w.d[b].d ) continue;
            // parts that still belong to nobody cannot travel consistently
            bool mixed = false;
            for( size_t i = 0; i < w.e.size(); ++i )
                if( w.live( i ) ) { for( auto& r0 : w.e[i].ref ) if( w.e[r0.second].doc != w.e[i].doc ) mixed = true; for( auto& l : w.e[i].lst ) for( int q : l.second ) if( w.e[q].doc != w.e[i].doc ) mixed = true; }
            if( mixed ) continue;
            IGES_ENTITY_308* p = (IGES_ENTITY_308*) 1;
            size_t n = 0;
            for( size_t i = 0; i < w.e.size(); ++i ) if( w.live( i ) && w.e[i].doc == a ) ++n;
            bool rescaled = w.d[a].alive && w.d[b].alive && w.d[a].raw->globalData.unitsFlag != w.d[b].raw->globalData.unitsFlag;
            bool ok = r.below( 2 ) || !w.d[b].alive ? w.d[a].d->Export( w.d[b].d, &p ) : w.d[a].d->Export( w.d[b].raw, &p );
            bool may = a != b && w.d[a].alive && w.d[b].alive;
            if( may && rescaled ) for( auto& e : w.e ) if( !e.gone && e.doc == a ) e.v.clear();      // the geometry is converted
            w.swept( a );
            REQUIRE( may || !ok, "document-call", "Export() accepted" );
            // units and line weights follow those of the document they move to
            if( may ) { w.d[a].num.clear(); for( auto& e : w.e ) if( !e.gone && ( e.doc == a || e.doc == b ) ) e.v.erase( attrNo( "line weight" ) ); }
            if( ok && p )
            {
                REQUIRE( n > 0 && p != (IGES_ENTITY_308*) 1, "document-call", "Export() of an empty document delivered a part" );
                for( size_t i = 0; i < w.e.size(); ++i ) if( w.live( i ) && w.e[i].doc == a ) w.e[i].doc = b;
                int q = w.find( p );
                REQUIRE( q < 0, "document-call", "Export() returned an existing entity" );
                q = w.add( p, 308, b );
                w.e[q].opaque = true;
                ++moved; ++g_stats.probes["exported"];
            }
        }
        else if( o == "global" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            int g = r.below( NG );
            std::string t = strf( "text %d", (int) r.below( 1000 ) );
            bool null = r.below( 5 ) == 0;
            bool ok = ( w.d[k].d->*GLOB[g].set )( null ? nullptr : t.c_str() );
            REQUIRE( ok == w.d[k].alive, "document-call", strf( "setting the %s %s", GLOB[g].name, ok ? "accepted" : "refused" ) );
            if( ok ) w.d[k].g[g] = null ? "" : t;
        }
        else if( o == "number" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            Doc& x = w.d[k];
            bool wrong = r.below( 3 ) == 0, ok = false;
            int q = r.below( 5 );
            double v = 0;
            switch( q )
            {
                case 0:
                {
                    bool empty = true;
                    for( size_t i = 0; i < w.e.size(); ++i ) if( w.live( i ) && w.e[i].doc == k ) empty = false;
                    if( !empty ) continue;      // the geometry would change
                    int u = wrong ? 3 : r.pick( std::vector<int>{ 1, 2, 4, 6, 8, 10 } );
                    v = u;
                    ok = x.d->SetUnitsFlag( (IGES_UNIT) u );
                    if( ok ) { x.num.erase( 2 ); x.num.erase( 3 ); }
                    break;
                }
                case 1: v = wrong ? -(int) r.below( 3 ) : 1 + (int) r.below( 20 ); ok = x.d->SetMaxLineWidthGrad( (int) v ); break;
                case 2: v = wrong ? -(double) r.below( 3 ) : 0.25 * ( 1 + (int) r.below( 20 ) ); ok = x.d->SetMaxLineWidth( v ); break;
                case 3: v = wrong ? 1e-10 : r.pick( std::vector<double>{ 1e-9, 1e-6, 0.01 } ); ok = x.d->SetMinResolution( v ); break;
                default: wrong = false; v = r.below( 8 ); ok = x.d->SetDraftingStandard( (IGES_DRAFTING_STANDARD) (int) v ); break;
            }
            REQUIRE( ok == ( x.alive && !wrong ), "document-call", strf( "setting global number %d to %g %s", q, v, ok ? "accepted" : "refused" ) );
            if( ok ) x.num[q] = v;
        }
        else if( o == "refuse" )
        {
            // entities which cannot serve in these roles; nothing may change
            int i = anyHdl( true ), j = anyHdl( false );
            if( i < 0 || j < 0 || !has( std::vector<int>{ 100, 104, 110, 126 }, w.h[i].type ) || w.h[j].type == 102 ) continue;
            H *a = w.h[i].h, *b = w.h[j].h;
            IGES_ENTITY* p = b->GetRawPtr();
            if( !p ) continue;
            const char* what = a->SetLevel( *b ) || a->SetLevel( p ) ? "SetLevel" : a->SetView( *b ) || a->SetView( p ) ? "SetView" : a->SetLineFontPattern( *b ) || a->SetLineFontPattern( p ) ? "SetLineFontPattern"
                : a->SetLabelAssoc( *b ) || a->SetLabelAssoc( p ) ? "SetLabelAssoc" : a->SetStructure( *b ) || a->SetStructure( p ) ? "SetStructure" : w.h[j].type != 124 && ( a->SetTransform( *b ) || a->SetTransform( p ) ) ? "SetTransform"
                : w.h[j].type != 314 && a->SetColor( p ) ? "SetColor" : nullptr;
            if( what ) fail( "accepted", strf( "type %d: %s() of an entity of type %d", w.h[i].type, what, w.h[j].type ) );
            ++g_stats.probes["refused-role"];
        }
        else if( o == "header" )
        {
            int k = anyDoc();
            if( k < 0 || !w.d[k].d ) continue;
            std::string t = strf( "line %d", (int) r.below( 1000 ) );
            const char* c = t.c_str();
            bool ok = w.d[k].d->AddToHeader( c );
            REQUIRE( ok == w.d[k].alive, "document-call", "AddToHeader()" );
            if( !ok ) continue;
            w.d[k].head.push_back( t );
            size_t n = 0; char const** l = nullptr;
            REQUIRE( w.d[k].d->GetHeaders( n, l ) && n == w.d[k].head.size(), "header-lines", "GetHeaders()" );
            for( size_t i = 0; i < n; ++i ) { std::string got = l[i]; got.erase( got.find_last_not_of( ' ' ) + 1 ); REQUIRE( w.d[k].head[i].empty() || w.d[k].head[i] == got, "header-lines", strf( "line %zu", i ) ); }
        }
        else if( o == "dead" )
        {
            std::vector<int> c;
            for( size_t i = 0; i < w.h.size(); ++i ) if( w.h[i].h && !w.valid( w.h[i] ) ) c.push_back( i );
            int j = anyHdl( false );
            if( !c.empty() )
            {
                Hdl& x = w.h[r.pick( c )];
                int from = r.below( NDEAD );
                for( int q = 0; q < 12; ++q )
                    if( const char* what = DeadCall( x.h, ( from + q ) % NDEAD, w.h[j].h ) )
                        fail( "dead-handle", strf( "type %d: %s succeeded on a handle without entity", x.type, what ) );
                if( x.ent >= 0 ) ++g_stats.probes["calls-after-death"]; else ++g_stats.probes["calls-without-entity"];
                x.ent = x.ent;
            }
            int k = anyDoc();
            if( k >= 0 && w.d[k].d && !w.d[k].alive )
            {
                DLL_IGES* d = w.d[k].d;
                IGES_ENTITY* e = nullptr; IGES_UNIT u; int n; double v; const char* t = nullptr; size_t z; char const** l; IGES_DRAFTING_STANDARD ds;
                d->Compact(); d->Cull();
                const char* bad = d->Clear() ? "Clear" : d->Read( "/sim/h.igs" ) ? "Read" : d->Write( "/sim/dead.igs", true ) ? "Write" : d->GetNewPartName() ? "GetNewPartName" : d->GetNewAssemblyName( nullptr ) ? "GetNewAssemblyName"
                    : d->NewIGESEntity( ENT_LINE, &e ) ? "NewIGESEntity" : d->ConvertUnits( UNIT_INCH ) ? "ConvertUnits" : d->ChangeModelScale( 2 ) ? "ChangeModelScale" : d->GetHeaders( z, l ) ? "GetHeaders" : d->GetPreprocessorVersion( t ) ? "GetPreprocessorVersion"
                    : d->GetUnitsFlag( u ) ? "GetUnitsFlag" : d->SetUnitsFlag( UNIT_INCH ) ? "SetUnitsFlag" : d->GetUnitsName( t ) ? "GetUnitsName" : d->GetMaxLineWidthGrad( n ) ? "GetMaxLineWidthGrad" : d->SetMaxLineWidthGrad( 3 ) ? "SetMaxLineWidthGrad"
                    : d->GetMaxLineWidth( v ) ? "GetMaxLineWidth" : d->SetMaxLineWidth( 1 ) ? "SetMaxLineWidth" : d->GetCreationDate( t ) ? "GetCreationDate" : d->GetMinResolution( v ) ? "GetMinResolution" : d->SetMinResolution( 0.1 ) ? "SetMinResolution"
                    : d->GetIGESVersionFlag( n ) ? "GetIGESVersionFlag" : d->GetDraftingStandard( ds ) ? "GetDraftingStandard" : d->GetModificationDate( t ) ? "GetModificationDate" : nullptr;
                if( bad ) fail( "dead-handle", strf( "DLL_IGES::%s() succeeded without a document", bad ) );
                REQUIRE( !seam::exists( "/sim/dead.igs" ), "dead-handle", "a deleted document was saved" );
                ++g_stats.probes["calls-on-dead-document"];
            }
        }
        ++g_stats.probes["op-" + o];
        check( w, r.below( 3 ) == 0 );
        trace( strf( "%s e%zu h%zu", o.c_str(), w.e.size(), w.h.size() ) );
    }
    if( moved && shared ) Nontrivial();
}

// ----- outlines and segments: a handle owns its object until it is detached
struct Seg { MCAD_SEGMENT* p; std::unique_ptr<bool> alive{ new bool( false ) }; bool gone = false; int owner = -1; int kind = 0; double v[4] = { 0, 0, 0, 0 }; };
struct Out { MCAD_OUTLINE* p; std::unique_ptr<bool> alive{ new bool( false ) }; bool gone = false; int owner = -1; bool pcb = false; bool closed = false; std::vector<int> seg, hole, cut; double ex = 0, ey = 0; };
struct SH { DLL_MCAD_SEGMENT* h; int o = -1; };
struct OH { DLL_MCAD_OUTLINE* h; int o = -1; bool pcb = false; };
struct Geo
{
    std::vector<Seg> s; std::vector<Out> o; std::vector<SH> hs; std::vector<OH> ho;
    ~Geo()
    {
        for( auto& x : hs ) if( x.h ) { x.h->Detach(); delete x.h; }
        for( auto& x : ho ) if( x.h ) { x.h->Detach(); delete x.h; }
        std::vector<MCAD_SEGMENT*> a; std::vector<MCAD_OUTLINE*> b;
        for( auto& x : s ) if( *x.alive && x.owner < 0 ) a.push_back( x.p );
        for( auto& x : o ) if( *x.alive && x.owner < 0 ) b.push_back( x.p );
        for( auto* p : b ) delete p;
        for( auto* p : a ) delete p;
        for( auto& x : s ) x.alive.release();
        for( auto& x : o ) x.alive.release();
    }
    int addS( MCAD_SEGMENT* p ) { Seg x; x.p = p; s.push_back( std::move( x ) ); p->AttachValidFlag( s.back().alive.get() ); return s.size() - 1; }
    int addO( MCAD_OUTLINE* p, bool pcb ) { Out x; x.p = p; x.pcb = pcb; o.push_back( std::move( x ) ); p->AttachValidFlag( o.back().alive.get() ); return o.size() - 1; }
    void killO( int i ) { if( o[i].gone ) return; o[i].gone = true; for( int x : o[i].seg ) s[x].gone = true; for( int x : o[i].hole ) s[x].gone = true; for( int x : o[i].cut ) killO( x ); }
    bool vs( const SH& x ) const { return x.o >= 0 && !s[x.o].gone; }
    bool vo( const OH& x ) const { return x.o >= 0 && !o[x.o].gone; }
};

template<class T> std::vector<const void*> sorted( T** p, int n ) { std::vector<const void*> v( p, p + n ); std::sort( v.begin(), v.end() ); return v; }

void checkGeo( Geo& g, bool peek )
{
    for( size_t i = 0; i < g.s.size(); ++i ) if( g.s[i].gone == *g.s[i].alive ) fail( g.s[i].gone ? "flag-not-cleared" : "deleted", strf( "segment %zu", i ) );
    for( size_t i = 0; i < g.o.size(); ++i ) if( g.o[i].gone == *g.o[i].alive ) fail( g.o[i].gone ? "flag-not-cleared" : "deleted", strf( "outline %zu", i ) );
    for( auto& x : g.hs )
    {
        if( !x.h ) continue;
        bool want = g.vs( x );
        if( x.h->IsValid() != want ) fail( want ? "handle-invalid" : "handle-stale", "segment handle" );
        if( ( want || peek ) && x.h->GetRawPtr() != ( want ? g.s[x.o].p : nullptr ) ) fail( "handle-target", "segment handle" );
        MCAD_SEGTYPE t = MCAD_SEGTYPE_NONE; double d = 0; MCAD_POINT p, q;
        bool ok = x.h->GetSegType( t );
        if( ok != want ) fail( "dead-handle", "GetSegType()" );
        if( !want )
        {
            int n = 0; MCAD_POINT* l = nullptr; MCAD_INTERSECT_FLAG f; bool b = true; MCAD_SEGMENT** sl = nullptr;
            const char* bad = x.h->GetRadius( d ) ? "GetRadius" : x.h->GetStartAngle( d ) ? "GetStartAngle" : x.h->GetEndAngle( d ) ? "GetEndAngle" : x.h->GetFirstAngle( d ) ? "GetFirstAngle" : x.h->GetLastAngle( d ) ? "GetLastAngle" : x.h->GetCenter( p ) ? "GetCenter"
                : x.h->GetStart( p ) ? "GetStart" : x.h->GetEnd( p ) ? "GetEnd" : x.h->GetFirstPoint( p ) ? "GetFirstPoint" : x.h->GetLastPoint( p ) ? "GetLastPoint" : x.h->GetLength( d ) ? "GetLength" : x.h->IsCW( b ) ? "IsCW"
                : x.h->GetBoundingBox( p, q ) ? "GetBoundingBox" : x.h->GetMidpoint( p ) ? "GetMidpoint" : x.h->GetIntersections( *x.h, l, n, f ) ? "GetIntersections" : x.h->Split( nullptr, 1, sl, n ) ? "Split" : nullptr;
            if( bad ) fail( "dead-handle", strf( "DLL_MCAD_SEGMENT::%s() succeeded without a segment", bad ) );
            continue;
        }
        {
            int n = 0; MCAD_SEGMENT** sl = nullptr;
            if( x.h->Split( nullptr, 1, sl, n ) || sl || n ) fail( "accepted", "Split() without a list of points" );
        }
        Seg& s = g.s[x.o];
        if( ( s.kind == 0 ) != ( t == MCAD_SEGTYPE_NONE ) || ( s.kind == 1 ) != ( t == MCAD_SEGTYPE_LINE ) || ( s.kind == 2 ) != ( t == MCAD_SEGTYPE_CIRCLE ) ) fail( "value", "segment type" );
        if( s.kind == 1 && s.owner < 0 )
        {
            if( !x.h->GetStart( p ) || p.x != s.v[0] || p.y != s.v[1] || !x.h->GetEnd( p ) || p.x != s.v[2] || p.y != s.v[3] ) fail( "value", "end points of a line" );
            if( !x.h->GetLength( d ) || std::fabs( d - std::hypot( s.v[2] - s.v[0], s.v[3] - s.v[1] ) ) > 1e-6 ) fail( "value", "length of a line" );
        }
        if( s.kind == 2 )
        {
            if( !x.h->GetCenter( p ) || p.x != s.v[0] || p.y != s.v[1] ) fail( "value", "centre of a circle" );
            if( !x.h->GetRadius( d ) || std::fabs( d - s.v[2] ) > 1e-9 ) fail( "value", "radius of a circle" );
        }
    }
    for( auto& x : g.ho )
    {
        if( !x.h ) continue;
        bool want = g.vo( x );
        if( x.h->IsValid() != want ) fail( want ? "handle-invalid" : "handle-stale", "outline handle" );
        if( ( want || peek ) && x.h->GetRawPtr() != ( want ? g.o[x.o].p : nullptr ) ) fail( "handle-target", "outline handle" );
        MCAD_SEGMENT** sl = nullptr; MCAD_SEGMENT** dl = nullptr; MCAD_OUTLINE** ol = nullptr; char const** el = nullptr; int ns = 0, no = 0, nd = 0, ne = 0; bool b = false, er = false;
        bool ks = x.h->GetSegments( sl, ns ), kd = x.h->GetDrillHoles( dl, nd ), ko = x.h->GetCutouts( ol, no ), ke = x.h->GetErrors( el, ne ), kc = x.h->IsClosed( b );
        std::string bad;
        if( !want )
        {
            if( ks || kd || ko || ke || kc || sl || dl || ol || el || x.h->IsContiguous( b ) || x.h->IsInside( MCAD_POINT(), er ) || x.h->AddSegment( (MCAD_SEGMENT*) nullptr, er ) || x.h->AddOutline( (MCAD_OUTLINE*) nullptr, er ) || x.h->SubOutline( (MCAD_SEGMENT*) nullptr, er ) || x.h->AddCutout( (MCAD_OUTLINE*) nullptr, false, er ) )
                bad = "a call succeeded without an outline";
            x.h->ClearErrors();
            if( x.pcb )
            {
                DLL_IGES_GEOM_PCB* p = (DLL_IGES_GEOM_PCB*) x.h; IGES_ENTITY_144** f = nullptr; IGES_CURVE** c = nullptr; IGES_ENTITY_126** k = nullptr; int n = 0;
                if( p->GetVerticalSurface( nullptr, er, f, n, 1, 0 ) || p->GetTrimmedPlane( nullptr, er, f, n, 1, false ) || p->GetCurves( nullptr, c, n, 0, nullptr ) || p->GetCurveOnPlane( nullptr, k, n, 0, 1, 0, 1, 0, nullptr, false ) || p->GetSegmentWall( nullptr, f, n, 1, 0, nullptr, false ) )
                    bad = "a call succeeded without an outline";
            }
        }
        else
        {
            Out& o = g.o[x.o];
            std::vector<const void*> a, c, d;
            for( int i : o.seg ) a.push_back( g.s[i].p );
            for( int i : o.hole ) d.push_back( g.s[i].p );
            for( int i : o.cut ) c.push_back( g.o[i].p );
            std::sort( a.begin(), a.end() ); std::sort( d.begin(), d.end() ); std::sort( c.begin(), c.end() );
            if( !kc || b != o.closed ) bad = "closed";
            else if( sorted( sl, ns ) != a ) bad = "segments";
            else if( sorted( dl, nd ) != d ) bad = "holes";
            else if( sorted( ol, no ) != c ) bad = "cutouts";
        }
        delete[] sl; delete[] dl; delete[] ol; delete[] el;
        if( !bad.empty() ) fail( want ? "outline" : "dead-handle", bad );
    }
}

const char* const GOPS[] = { "seg", "seg", "seg", "outline", "outline", "params", "params", "polygon", "polygon", "append", "append", "hole", "hole", "cutout", "cutout", "sdetach", "sattach", "sattach", "sdrop", "sdel", "snew", "odetach", "oattach", "oattach", "odrop", "odel", "onew" };

void runGeometry( const Script& s )
{
    Geo g;
    int owned = 0, died = 0;
    for( auto& op : s.ops )
    {
        step();
        Rng r( op.u64( "r" ) );
        const std::string& o = op.name;
        auto sh = [&]( bool v ) -> int { std::vector<int> c; for( size_t i = 0; i < g.hs.size(); ++i ) if( g.hs[i].h && ( !v || g.vs( g.hs[i] ) ) ) c.push_back( i ); return c.empty() ? -1 : r.pick( c ); };
        auto oh = [&]( bool v ) -> int { std::vector<int> c; for( size_t i = 0; i < g.ho.size(); ++i ) if( g.ho[i].h && ( !v || g.vo( g.ho[i] ) ) ) c.push_back( i ); return c.empty() ? -1 : r.pick( c ); };
        // two handles that own one object would both delete it; only one may be left attached
        auto release = [&]( SH& x ) { if( g.vs( x ) && g.s[x.o].owner >= 0 ) { x.h->Detach(); x.o = -1; } };
        auto releaseO = [&]( OH& x ) { if( g.vo( x ) && g.o[x.o].owner >= 0 ) { x.h->Detach(); x.o = -1; } };
        bool er = false;
        if( o == "seg" )
        {
            if( g.hs.size() > 14 ) continue;
            SH x; bool c = r.below( 4 ) != 0; x.h = new DLL_MCAD_SEGMENT( c );
            if( c ) { REQUIRE( x.h->GetRawPtr(), "handle-create", "segment" ); x.o = g.addS( x.h->GetRawPtr() ); }
            g.hs.push_back( x );
        }
        else if( o == "outline" )
        {
            if( g.ho.size() > 8 ) continue;
            OH x; bool c = r.below( 4 ) != 0; x.pcb = r.below( 2 ); x.h = x.pcb ? new DLL_IGES_GEOM_PCB( c ) : new DLL_MCAD_OUTLINE( c );
            if( c ) { REQUIRE( x.h->GetRawPtr(), "handle-create", "outline" ); x.o = g.addO( x.h->GetRawPtr(), x.pcb ); }
            g.ho.push_back( x );
        }
        else if( o == "params" )
        {
            int i = sh( false );
            if( i < 0 || ( g.vs( g.hs[i] ) && g.s[g.hs[i].o].owner >= 0 ) ) continue;
            SH& x = g.hs[i];
            bool was = g.vs( x );
            int kind = 1 + r.below( 2 );
            double a = r.range( -50, 50 ), b = r.range( -50, 50 ), c = a + r.range( 1, 20 ), d = b + r.range( 0, 9 );
            // a call that draws on a handle without segment makes one
            bool ok = kind == 1 ? x.h->SetParams( MCAD_POINT( a, b, 0 ), MCAD_POINT( c, d, 0 ) ) : x.h->SetParams( MCAD_POINT( a, b, 0 ), MCAD_POINT( c, b, 0 ), MCAD_POINT( c, b, 0 ), false );
            REQUIRE( ok, "value-refused", kind == 1 ? "line" : "circle" );
            if( !was ) { REQUIRE( x.h->GetRawPtr(), "handle-create", "SetParams()" ); x.o = g.addS( x.h->GetRawPtr() ); }
            Seg& q = g.s[x.o];
            q.kind = kind; q.v[0] = a; q.v[1] = b; q.v[2] = kind == 1 ? c : c - a; q.v[3] = d;
        }
        else if( o == "polygon" || o == "append" )
        {
            int i = oh( true );
            if( i < 0 ) continue;
            Out& q = g.o[g.ho[i].o];
            if( o == "append" )
            {
                int j = sh( false );
                if( j < 0 || ( g.vs( g.hs[j] ) && g.s[g.hs[j].o].owner >= 0 ) ) continue;
                SH& x = g.hs[j];
                bool v = g.vs( x );
                bool want = v && !q.closed && g.s[x.o].kind != 0 && ( q.seg.empty() || ( g.s[x.o].kind == 1 && g.s[x.o].v[0] == q.ex && g.s[x.o].v[1] == q.ey ) );
                bool raw = v && r.below( 2 );
                bool ok = raw ? g.ho[i].h->AddSegment( g.s[x.o].p, er ) : g.ho[i].h->AddSegment( *x.h, er );
                REQUIRE( ok == want, "outline", strf( "AddSegment() %s", ok ? "accepted" : "refused" ) );
                if( ok )
                {
                    Seg& z = g.s[x.o];
                    z.owner = g.ho[i].o; q.seg.push_back( x.o ); ++owned;
                    if( z.kind == 2 ) q.closed = true;
                    q.ex = z.v[2]; q.ey = z.v[3];
                    if( !raw ) x.o = -1;        // the handle gives the segment away
                    else release( x );
                    // a line back to the start closes the outline
                    if( !q.closed && q.seg.size() > 1 && q.ex == g.s[q.seg[0]].v[0] && q.ey == g.s[q.seg[0]].v[1] ) q.closed = true;
                }
                else ++g_stats.probes["append-refused"];
            }
            else
            {
                if( !q.seg.empty() ) continue;
                int n = 3 + r.below( 5 );
                double cx = r.range( -50, 50 ), cy = r.range( -50, 50 ), R = r.range( 5, 30 );
                bool cw = r.below( 2 );
                std::vector<MCAD_POINT> pt;
                for( int k = 0; k < n; ++k ) { double t = ( cw ? -1 : 1 ) * 2 * M_PI * k / n; pt.push_back( MCAD_POINT( cx + R * std::cos( t ), cy + R * std::sin( t ), 0 ) ); }
                for( int k = 0; k < n; ++k )
                {
                    DLL_MCAD_SEGMENT* h = new DLL_MCAD_SEGMENT( true );
                    MCAD_POINT& a = pt[k]; MCAD_POINT& b = pt[( k + 1 ) % n];
                    SH x; x.h = h; x.o = g.addS( h->GetRawPtr() );
                    g.hs.push_back( x );
                    REQUIRE( h->SetParams( a, b ), "value-refused", "line" );
                    Seg& z = g.s[x.o];
                    z.kind = 1; z.v[0] = a.x; z.v[1] = a.y; z.v[2] = b.x; z.v[3] = b.y;
                    REQUIRE( g.ho[i].h->AddSegment( *h, er ), "outline", "AddSegment() refused" );
                    z.owner = g.ho[i].o; q.seg.push_back( x.o );
                    q.closed = k == n - 1; q.ex = b.x; q.ey = b.y;
                    int mine = x.o;
                    g.hs.back().o = -1;
                    if( r.below( 2 ) ) { delete h; g.hs.back().h = nullptr; }
                    else if( r.below( 2 ) ) { REQUIRE( h->Attach( g.s[mine].p ), "attach", "segment" ); g.hs.back().o = mine; }
                    checkGeo( g, false );
                }
                ++owned; ++g_stats.probes["polygon"];
            }
        }
        else if( o == "hole" )
        {
            int i = oh( true ), j = sh( false );
            if( i < 0 || j < 0 || ( g.vs( g.hs[j] ) && g.s[g.hs[j].o].owner >= 0 ) ) continue;
            SH& x = g.hs[j];
            bool v = g.vs( x ), want = v && g.s[x.o].kind == 2;
            bool ok = g.ho[i].h->AddCutout( *x.h, false, er );
            REQUIRE( ok == want, "outline", strf( "AddCutout() of a segment %s", ok ? "accepted" : "refused" ) );
            if( ok ) { g.s[x.o].owner = g.ho[i].o; g.o[g.ho[i].o].hole.push_back( x.o ); x.o = -1; ++owned; ++g_stats.probes["hole"]; }
        }
        else if( o == "cutout" )
        {
            int i = oh( true ), j = oh( false );
            if( i < 0 || j < 0 || i == j || ( g.vo( g.ho[j] ) && ( g.o[g.ho[j].o].owner >= 0 || g.ho[j].o == g.ho[i].o ) ) ) continue;
            OH& x = g.ho[j];
            bool v = g.vo( x );
            // no outline inside itself
            if( v ) { bool cyc = false; for( int k = g.ho[i].o; k >= 0; k = g.o[k].owner ) if( k == x.o ) cyc = true; if( cyc ) continue; }
            bool want = v && g.o[x.o].closed;
            bool ok = g.ho[i].h->AddCutout( *x.h, false, er );
            REQUIRE( ok == want, "outline", strf( "AddCutout() of an outline %s", ok ? "accepted" : "refused" ) );
            if( ok ) { g.o[x.o].owner = g.ho[i].o; g.o[g.ho[i].o].cut.push_back( x.o ); x.o = -1; ++owned; ++g_stats.probes["cutout"]; for( auto& y : g.ho ) if( y.h ) releaseO( y ); }
        }
        else if( o == "sdetach" ) { int i = sh( false ); if( i < 0 ) continue; g.hs[i].h->Detach(); g.hs[i].o = -1; }
        else if( o == "odetach" ) { int i = oh( false ); if( i < 0 ) continue; g.ho[i].h->Detach(); g.ho[i].o = -1; }
        else if( o == "sattach" )
        {
            int i = sh( false );
            if( i < 0 ) continue;
            std::vector<int> c; for( size_t k = 0; k < g.s.size(); ++k ) if( !g.s[k].gone ) c.push_back( k );
            int k = c.empty() || r.below( 8 ) == 0 ? -1 : r.pick( c );
            bool want = !g.vs( g.hs[i] ) && k >= 0;
            REQUIRE( g.hs[i].h->Attach( k < 0 ? nullptr : g.s[k].p ) == want, "attach", "segment" );
            if( want ) { g.hs[i].o = k; ++g_stats.probes["segment-attached"]; }
        }
        else if( o == "oattach" )
        {
            int i = oh( false );
            if( i < 0 ) continue;
            std::vector<int> c; for( size_t k = 0; k < g.o.size(); ++k ) if( !g.o[k].gone ) c.push_back( k );
            int k = c.empty() || r.below( 8 ) == 0 ? -1 : r.pick( c );
            bool want = !g.vo( g.ho[i] ) && k >= 0 && ( !g.ho[i].pcb || g.o[k].pcb );
            REQUIRE( g.ho[i].h->Attach( k < 0 ? nullptr : g.o[k].p ) == want, "attach", "outline" );
            if( want ) { g.ho[i].o = k; ++g_stats.probes["outline-attached"]; }
        }
        else if( o == "sdrop" )
        {
            int i = sh( false );
            if( i < 0 ) continue;
            release( g.hs[i] );
            int k = g.vs( g.hs[i] ) ? g.hs[i].o : -1;
            delete g.hs[i].h; g.hs[i].h = nullptr; g.hs[i].o = -1;
            if( k >= 0 ) { g.s[k].gone = true; ++died; }
        }
        else if( o == "sdel" )
        {
            int i = sh( false );
            if( i < 0 ) continue;
            release( g.hs[i] );
            int k = g.vs( g.hs[i] ) ? g.hs[i].o : -1;
            g.hs[i].h->DelSegment(); g.hs[i].o = -1;
            if( k >= 0 ) { g.s[k].gone = true; ++died; }
        }
        else if( o == "snew" )
        {
            int i = sh( false );
            if( i < 0 ) continue;
            REQUIRE( g.hs[i].h->NewSegment() && g.hs[i].h->GetRawPtr(), "handle-create", "NewSegment()" );
            g.hs[i].o = g.addS( g.hs[i].h->GetRawPtr() );
        }
        else if( o == "onew" )
        {
            int i = oh( false );
            if( i < 0 ) continue;
            REQUIRE( g.ho[i].h->NewOutline() && g.ho[i].h->GetRawPtr(), "handle-create", "NewOutline()" );
            g.ho[i].o = g.addO( g.ho[i].h->GetRawPtr(), g.ho[i].pcb );
        }
        else if( o == "odrop" || o == "odel" )
        {
            int i = oh( false );
            if( i < 0 ) continue;
            releaseO( g.ho[i] );
            int k = g.vo( g.ho[i] ) ? g.ho[i].o : -1;
            if( o == "odrop" ) { delete g.ho[i].h; g.ho[i].h = nullptr; }
            else g.ho[i].h->DelOutline();
            g.ho[i].o = -1;
            if( k >= 0 ) { g.killO( k ); ++died; ++g_stats.probes["outline-destroyed"]; }
        }
        ++g_stats.probes["op-" + o];
        checkGeo( g, r.below( 3 ) == 0 );
        trace( strf( "%s s%zu o%zu", o.c_str(), g.s.size(), g.o.size() ) );
    }
    if( owned && died ) Nontrivial();
}

void gen( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    bool geo = r.below( 3 ) == 0;
    Op k( "kind" );
    k.set( "geometry", geo );
    s.ops.push_back( k );
    int n = ( thorough ? 40 : 20 ) + r.below( thorough ? 160 : 80 );
    if( !geo ) { Op o( "newdoc" ); o.set( "r", (long) ( r.next() >> 2 ) ); s.ops.push_back( o ); if( r.below( 2 ) ) s.ops.push_back( o ); }
    int burst = geo ? 0 : r.below( 16 );
    n += burst;
    for( int i = 0; i < n; ++i )
    {
        if( i < burst ) { Op o( r.below( 3 ) ? "handle" : r.below( 2 ) ? "ref" : "list" ); o.set( "r", (long) ( r.next() >> 2 ) ); s.ops.push_back( o ); continue; }
        Op o( geo ? GOPS[r.below( sizeof GOPS / sizeof *GOPS )] : OPS[r.below( sizeof OPS / sizeof *OPS )] );
        if( ( o.name == "killdoc" || o.name == "clear" || o.name == "killraw" || o.name == "cull" || o.name == "write" ) && r.below( 4 ) ) { --i; continue; }
        o.set( "r", (long) ( r.next() >> 2 ) );
        if( o.name == "write" ) { BenignWrite( r, o ); if( r.below( 2 ) ) o.fault( 'w', 1 + r.below( 3 ), r.pick( std::vector<std::string>{ "eio", "enospc" } ) ); }
        s.ops.push_back( o );
    }
}

void run( const Script& s )
{
    bool geo = !s.ops.empty() && s.ops[0].num( "geometry" );
    seam::set_clock( 1700000000, {} );
    if( geo ) runGeometry( s ); else runEntities( s );
}
RegScenario reg( Scenario{ "H01", gen, run, "a run is non-trivial when entities changed their document while several handles shared an entity, or when outlines took over segments and objects died afterwards" } );
}
