#include <limits>
// M01: a document survives a read/write cycle, and writing is a fixed point
// R03: the meaning of a file does not depend on its layout or on how it arrives
#include "scen.h"

static Op docOp( Rng& r, bool thorough )
{
    Op doc( "doc" );
    doc.set( "seed", (long) ( r.next() >> 2 ) );
    doc.set( "style", (long) ( r.next() >> 2 ) );
    doc.set( "n", r.chance( 1, 4 ) ? 1 : 1 + r.below( thorough ? 12 : 6 ) );
    if( r.chance( 1, 12 ) ) doc.set( "head", 1 + r.below( r.chance( 1, 2 ) ? 20 : 400 ) );
    return doc;
}

// the global parameters a copy must carry over
static GlobM expectGlob( const GlobM& in, const GlobM& out, const std::string& file )
{
    GlobM g = in;
    g.file = file;
    // describe this exporter and this machine, not the source
    g.preproc = out.preproc; g.system = in.system;
    // the writer states the number ranges of the platform, whatever was loaded
    g.intBits = 8 * (long) sizeof( int );
    g.maxPowS = std::numeric_limits<float>::max_exponent10; g.sigS = std::numeric_limits<float>::digits10;
    g.maxPowD = std::numeric_limits<double>::max_exponent10; g.sigD = std::numeric_limits<double>::digits10;
    g.version = 11;                 // the version of the format which is written
    g.modDate = out.modDate;
    g.maxCoord = out.maxCoord;      // always "not specified"
    if( g.maxWidth < 1e-6 ) g.maxWidth = out.maxWidth;
    return g;
}

static void genM01( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough ) );
    Op rd( "read" ); BenignRead( r, rd ); s.ops.push_back( rd );
    Op wr( "write" ); BenignWrite( r, wr ); s.ops.push_back( wr );
    Op r2( "reread" ); BenignRead( r, r2 ); s.ops.push_back( r2 );
    Op w2( "rewrite" ); BenignWrite( r, w2 ); s.ops.push_back( w2 );
}

static void runM01( const Script& s )
{
    DocM m, got;
    IGES doc, again;
    std::string err, first;
    bool have = false, haveAgain = false;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) { seam::put( "/sim/in.igs", TextFor( op, &m ) ); have = false; }
        else if( op.name == "read" )
        {
            Armed a( op );
            REQUIRE( doc.Read( "/sim/in.igs" ), "read-refused", "a valid file was refused" );
            have = true;
        }
        else if( op.name == "write" && have )
        {
            DocM want = ExpectDoc( m );
            bool ok;
            { Armed a( op ); ok = doc.Write( "/sim/out.igs", true ); }
            if( want.ents.empty() ) { REQUIRE( !ok, "write-empty", "an empty document was written" ); trace( "empty" ); return; }
            REQUIRE( ok, "write-refused", "Write() failed" );
            first = seam::get( "/sim/out.igs" );
            REQUIRE( ParseText( first, got, err ), "malformed", err );
            std::string df = Diff( want, got, CMP_ENTS | CMP_START | CMP_COMMENT, m.g.minRes );
            REQUIRE( df.empty(), "lost-content", df );
            want.g = expectGlob( m.g, got.g, "out.igs" );
            df = Diff( want, got, CMP_GLOB, m.g.minRes );
            REQUIRE( df.empty(), "lost-global", df );
            trace( strf( "ents %zu bytes %016llx", got.ents.size(), (unsigned long long) hash64( first ) ) );
            if( got.ents.size() > 3 ) Nontrivial();
            for( auto& e : got.ents ) ++g_stats.probes[strf( "entity-%d", e.type )];
        }
        else if( op.name == "reread" && !first.empty() )
        {
            Armed a( op );
            REQUIRE( again.Read( "/sim/out.igs" ), "own-output-refused", "Read() refused the file Write() produced" );
            haveAgain = true;
        }
        else if( op.name == "rewrite" && haveAgain )
        {
            { Armed a( op ); REQUIRE( again.Write( "/sim/2/out.igs", true ), "rewrite-refused", "Write() failed on a re-read document" ); }
            std::string two = seam::get( "/sim/2/out.igs" );
            REQUIRE( two == first, "not-a-fixed-point", FirstDiff( first, two ) );
            trace( "fixed point" );
        }
    }
}
static RegScenario regM01( Scenario{ "M01", genM01, runM01, "a run is non-trivial when the written document has more than three entities" } );

static void genR03( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough ) );
    int n = 2 + r.below( 3 );
    for( int i = 0; i < n; ++i )
    {
        Op rd( "layout" );
        rd.set( "style", (long) ( r.next() >> 2 ) );
        BenignRead( r, rd );
        s.ops.push_back( rd );
    }
}
static void runR03( const Script& s )
{
    DocM m;
    std::string first;
    Op base;
    bool have = false;
    int n = 0;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) { base = op; m = DocFor( op ); have = true; }
        else if( op.name == "layout" && have )
        {
            Op o = base; o.a["style"] = op.txt( "style" );
            if( ExpectDoc( m ).ents.empty() ) { trace( "empty" ); return; }
            seam::put( "/sim/in.igs", TextFor( o ) );
            IGES doc;
            { Armed a( op ); REQUIRE( doc.Read( "/sim/in.igs" ), "read-refused", "a valid file was refused" ); }
            REQUIRE( doc.Write( "/sim/out.igs", true ), "write-refused", "Write() failed" );
            std::string t = seam::get( "/sim/out.igs" );
            trace( strf( "layout %016llx", (unsigned long long) hash64( t ) ) );
            if( n++ == 0 ) first = t;
            else { REQUIRE( t == first, "layout-changes-meaning", FirstDiff( first, t ) ); Nontrivial(); }
        }
    }
}
static RegScenario regR03( Scenario{ "R03", genR03, runR03, "a run is non-trivial when at least two different layouts of one document were read and compared" } );
