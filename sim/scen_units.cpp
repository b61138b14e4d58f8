// M05: the size of a model is preserved by units and model scales
#include "scen.h"
#include <cmath>
#include <limits>

namespace
{
// millimetres per unit, from the text of the IGES specification (flag 3 = named unit)
const double MM[12] = { 0, 25.4, 1, 0, 304.8, 1609344.0, 1000, 1e6, 0.0254, 0.001, 10, 0.0000254 };
const char* const NAME[12] = { "", "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
const long UNITS[] = { 1, 2, 4, 5, 6, 7, 8, 9, 10, 11 };
const double SCALES[] = { 1, 1, 0.5, 2, 0.125, 10, 0.01, 25.4, 3, 1.0 / 3, 100, 0.001, 1.00005, 0.99993, 1.002 };

// keeps the numbers within the range in which a file can represent them
bool inRange( double perMm, double minRes ) { return perMm >= 0.9e-3 && perMm <= 4e4 && minRes >= 1e-8 && minRes <= 0.1; }

void gen( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    Op doc( "doc" );
    doc.set( "seed", (long) ( r.next() >> 2 ) );
    doc.set( "style", (long) ( r.next() >> 2 ) );
    doc.set( "n", 1 + r.below( thorough ? 8 : 4 ) );
    // the precision of written values follows the resolution, so arcs in parameter
    // space (not scaled) may degrade if the unit changes by orders of magnitude
    doc.set( "noparc", 1 );
    doc.set( "units", UNITS[r.below( 10 )] );
    doc.set( "scale", (long) r.below( 15 ) );
    s.ops.push_back( doc );
    int n = 1 + r.below( thorough ? 10 : 6 );
    for( int i = 0; i < n; ++i )
    {
        switch( r.below( 7 ) )
        {
            case 0: case 1: { Op o( "convert" ); o.set( "units", r.chance( 1, 8 ) ? r.pick( std::vector<long>{ 0, -1, 3, 12, 13, 100000, -2000000000 } ) : UNITS[r.below( 10 )] ); s.ops.push_back( o ); break; }
            case 2: { Op o( "rescale" ); o.set( "scale", (long) r.below( r.chance( 1, 6 ) ? 21 : 15 ) ); s.ops.push_back( o ); break; }
            case 3: case 4: { Op o( "save" ); BenignWrite( r, o ); s.ops.push_back( o ); break; }
            default: { Op o( "reload" ); BenignRead( r, o ); s.ops.push_back( o ); }
        }
    }
    s.ops.push_back( Op( "save" ) );
}

void run( const Script& s )
{
    std::unique_ptr<IGES> doc;
    DocM cur;
    std::string err;
    bool have = false;
    double total = 1;       // units of the model per millimetre
    int changes = 0;
    seam::set_clock( 1700000000, {} );
    g_relTol = 2e-12;
    auto loaded = [&]( DocM m )
    {
        double f = MM[m.g.units] / m.g.scale;
        cur = ExpectDoc( m );
        ScaleDoc( cur, f );
        cur.g.minRes *= f;
        cur.g.maxWidth *= MM[m.g.units];
        cur.g.units = 2; cur.g.unitName = "MM"; cur.g.scale = 1;
        total = 1;
        if( f != 1 ) ++changes;
    };
    auto compare = [&]( DocM& got )
    {
        std::string df = Diff( cur, got, CMP_ENTS, cur.g.minRes );
        REQUIRE( df.empty(), "size-changed", df );
        DocM a, b;
        a.g = b.g = got.g;
        a.g.units = cur.g.units; a.g.unitName = cur.g.unitName; a.g.scale = cur.g.scale;
        REQUIRE( std::fabs( got.g.minRes - cur.g.minRes ) <= 1e-5 * cur.g.minRes, "resolution-changed", strf( "minimum resolution %g became %g", cur.g.minRes, got.g.minRes ) );
        // a width below the resolution is written as 0
        if( cur.g.maxWidth > 2 * cur.g.minRes )
            REQUIRE( std::fabs( got.g.maxWidth - cur.g.maxWidth ) <= 0.001 * cur.g.minRes + 1e-6 * cur.g.maxWidth, "line-width-changed", strf( "maximum line width %.9g became %.9g", cur.g.maxWidth, got.g.maxWidth ) );
        cur.g.maxWidth = got.g.maxWidth;
        df = Diff( a, b, CMP_GLOB, 1 );
        REQUIRE( df.empty(), "unit-declaration", df );
    };
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" )
        {
            DocM m = DocFor( op );
            m.g.units = op.num( "units", 2 );
            if( m.g.units < 1 || m.g.units > 11 || m.g.units == 3 ) m.g.units = 2;
            m.g.unitName = NAME[m.g.units];
            m.g.scale = SCALES[op.num( "scale" ) % 15];
            if( MM[m.g.units] < 0.01 && m.g.scale > 1 ) m.g.scale = 1;
            if( MM[m.g.units] > 1e5 && m.g.scale < 1 ) m.g.scale = 1;
            double f = MM[m.g.units] / m.g.scale;
            if( m.g.minRes < 1e-9 ) m.g.minRes = 1e-9;
            if( m.g.minRes > 1e-3 ) m.g.minRes = 1e-3;
            if( m.g.minRes * f < 1e-8 ) m.g.minRes = 1e-7 / f;
            if( m.g.minRes * f > 0.1 ) m.g.minRes = 1e-3 / f;
            Rng r( op.u64( "style" ) );
            seam::put( "/sim/in.igs", WriteText( m, StyleFor( r ) ) );
            doc.reset( new IGES );
            REQUIRE( doc->Read( "/sim/in.igs" ), "read-refused", "a valid file was refused" );
            loaded( m );
            have = !cur.ents.empty();
            trace( strf( "doc u%ld s%g n%zu", m.g.units, m.g.scale, cur.ents.size() ) );
        }
        else if( !have ) continue;
        else if( op.name == "convert" )
        {
            long u = op.num( "units" );
            if( u == cur.g.units ) { REQUIRE( doc->ConvertUnits( (IGES_UNIT) u ), "convert-refused", "no change" ); continue; }
            if( u < 1 || u > 11 || u == 3 )
            {
                REQUIRE( !doc->ConvertUnits( (IGES_UNIT) u ), "bad-unit-accepted", strf( "units flag %ld", u ) );
                ++g_stats.probes["bad-unit"];
                continue;
            }
            double f = MM[cur.g.units] / MM[u];
            if( !inRange( total * f, cur.g.minRes * f ) ) continue;
            REQUIRE( doc->ConvertUnits( (IGES_UNIT) u ), "convert-refused", strf( "to units flag %ld", u ) );
            ScaleDoc( cur, f );
            total *= f;
            cur.g.minRes *= f; cur.g.maxWidth *= f; cur.g.units = u; cur.g.unitName = NAME[u];
            ++changes;
            ++g_stats.probes[strf( "to-%s", NAME[u] )];
            trace( strf( "convert %ld", u ) );
        }
        else if( op.name == "rescale" )
        {
            long i = op.num( "scale" ) % 21;
            if( i >= 15 )
            {
                static const double bad[6] = { 0, -1, 1e-9, 1e9, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() };
                REQUIRE( !doc->ChangeModelScale( bad[i - 15] ), "bad-scale-accepted", strf( "scale %g", bad[i - 15] ) );
                ++g_stats.probes["bad-scale"];
                continue;
            }
            double v = SCALES[i], f = v / cur.g.scale;
            if( !inRange( total * f, cur.g.minRes * f ) ) continue;
            REQUIRE( doc->ChangeModelScale( v ), "rescale-refused", strf( "scale %g", v ) );
            ScaleDoc( cur, f );
            total *= f;
            cur.g.minRes *= f; cur.g.scale = v;
            if( f != 1 ) ++changes;
            ++g_stats.probes["rescaled"];
            trace( strf( "scale %ld", i ) );
        }
        else if( op.name == "save" || op.name == "reload" )
        {
            { Armed a( op ); REQUIRE( doc->Write( "/sim/out.igs", true ), "write-refused", "Write() failed" ); }
            DocM got;
            REQUIRE( ParseText( seam::get( "/sim/out.igs" ), got, err ), "malformed", err );
            compare( got );
            if( getenv( "SIM_DUMP" ) ) fputs( seam::get( "/sim/out.igs" ).c_str(), stderr );
            trace( strf( "saved %016llx", (unsigned long long) hash64( seam::get( "/sim/out.igs" ) ) ) );
            if( changes >= 2 ) Nontrivial();
            if( op.name == "reload" )
            {
                doc.reset( new IGES );
                { Armed a( op ); REQUIRE( doc->Read( "/sim/out.igs" ), "own-output-refused", "Read() refused the file Write() produced" ); }
                loaded( got );
                ++g_stats.probes["reloaded"];
            }
        }
    }
}
RegScenario reg( Scenario{ "M05", gen, run, "a run is non-trivial when a saved document was compared after at least two changes of unit or model scale (a conversion while loading counts)" } );
}
