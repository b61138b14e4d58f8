// Disk faults while a document is saved or loaded.
//   W01 an acknowledged save is complete; harmless I/O shapes are absorbed
//   W02 a failed save leaves the document in memory unharmed
//   W03 saving without permission to overwrite never harms an existing file
//   W04 what a crash leaves on the disk is never taken for another document
//   R01 a failed load leaves an empty, reusable document; success means the whole file
#include "scen.h"
#include <algorithm>

namespace
{
const char* const FOREIGN = "this file belongs to somebody else\n";

Op docOp( Rng& r, bool thorough, const char* name = "doc" )
{
    Op doc( name );
    doc.set( "seed", (long) ( r.next() >> 2 ) );
    doc.set( "style", (long) ( r.next() >> 2 ) );
    doc.set( "n", 1 + r.below( r.chance( 1, 3 ) ? ( thorough ? 14 : 6 ) : 2 ) );
    if( r.chance( 1, 5 ) ) doc.set( "head", 1 + r.below( r.chance( 1, 2 ) ? 20 : 400 ) );
    return doc;
}

// how many write calls a save of a document of typical size makes is unknown to the
// generator; positions are drawn from several scales so that first, middle and last
// calls, and calls past the end, are all common
long callPos( Rng& r )
{
    switch( r.below( 7 ) )
    {
        case 0: return 1 + r.below( 2 );
        case 1: return 1 + r.below( 4 );
        case 2: return 1 + r.below( 16 );
        case 3: return -(long) r.below( 3 );
        case 4: return -(long) r.below( 12 );
        case 5: return PERMILLE + r.below( 1001 );
        default: return 1 + r.below( 80 );
    }
}

void hardWrite( Rng& r, Op& op )
{
    switch( r.below( 6 ) )
    {
        case 0: op.fault( 'o', 1, r.pick( std::vector<std::string>{ "eio", "enospc", "eacces", "emfile", "erofs" } ) ); break;
        case 1: case 2: op.fault( 'w', callPos( r ), r.pick( std::vector<std::string>{ "eio", "enospc", "edquot" } ) ); break;
        case 3:
            // the disk fills up: after so many thousandths of the file, or so many bytes before its end
            if( r.chance( 1, 3 ) ) op.set( "cap", (long) r.below( 400 ) );
            else if( r.chance( 1, 2 ) ) op.set( "full", (long) r.below( 1000 ) );
            else op.set( "full", -1 - (long) r.below( r.chance( 1, 2 ) ? 3 : 300 ) );
            break;
        case 4: op.fault( 'c', 1, r.pick( std::vector<std::string>{ "eio", "enospc", "edquot" } ), r.chance( 1, 2 ) ? 0 : 1 + r.below( 4000 ) ); break;
        default:
        {
            // a transfer is cut short and what follows at once, or later, fails
            long at = callPos( r );
            if( at == 0 ) at = -1;
            op.fault( 'w', at, "short", 1 + r.below( r.chance( 1, 2 ) ? 100 : 8000 ) );
            op.fault( 'w', r.chance( 1, 2 ) ? at + 1 : callPos( r ), r.pick( std::vector<std::string>{ "eio", "enospc" } ) );
        }
    }
}

struct World
{
    DocM m, want;
    IGES doc;
    bool loaded = false;
    std::string ref;        // what a save without faults must produce
    std::map<std::string, std::string> others;

    void load( const Op& op )
    {
        seam::put( "/sim/in.igs", TextFor( op, &m ) );
        want = ExpectDoc( m );
        IGES twin;
        REQUIRE( twin.Read( "/sim/in.igs" ), "setup", "a valid file was refused" );
        loaded = !want.ents.empty();
        if( !loaded ) return;
        REQUIRE( twin.Write( "/sim/ref/out.igs", true ), "setup", "reference save failed" );
        ref = seam::get( "/sim/ref/out.igs" );
        DocM got;
        std::string err;
        REQUIRE( ParseText( ref, got, err ), "setup-malformed", err );
        REQUIRE( doc.Read( "/sim/in.igs" ), "setup", "a valid file was refused" );
        seam::put( "/sim/other.igs", FOREIGN );
    }
    Op resolveSave( const Op& op )
    {
        Op q = op;
        if( op.has( "full" ) ) q.set( "cap", (long) std::max<long>( 0, op.num( "full" ) >= 0 ? ref.size() * op.num( "full" ) / 1000 : (long) ref.size() + op.num( "full" ) ) );
        return Resolve( q, [&]
        {
            IGES t;
            t.Read( "/sim/in.igs" );
            seam::arm( q.has( "chunk" ) ? Op().set( "chunk", q.num( "chunk" ) ) : Op() );
            t.Write( "/sim/probe/out.igs", true );
        } );
    }
    Op resolveLoad( const Op& op )
    {
        return Resolve( op, [&] { IGES t; t.Read( "/sim/in.igs" ); } );
    }
    void bystanders()
    {
        REQUIRE( seam::get( "/sim/other.igs" ) == FOREIGN, "bystander", "a save changed a file it was not given" );
        REQUIRE( seam::get( "/sim/ref/out.igs" ) == ref, "bystander", "a save changed a file it was not given" );
    }
};

void genSave( uint64_t seed, bool thorough, Script& s, int harm )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough ) );
    int n = 1 + r.below( thorough ? 6 : 4 );
    for( int i = 0; i < n; ++i )
    {
        Op w( "save" );
        w.set( "old", (long) r.below( 3 ) );        // 0 nothing there, 1 a file there, 2 a longer file there
        if( r.chance( harm, 4 ) ) hardWrite( r, w );
        if( r.chance( 1, 2 ) ) BenignWrite( r, w );
        s.ops.push_back( w );
    }
}

void prepareTarget( const Op& op, const std::string& path, const std::string& ref )
{
    seam::remove( path );
    if( op.num( "old" ) == 1 ) seam::put( path, "old content\n" );
    if( op.num( "old" ) == 2 ) seam::put( path, ref + ref + "old content\n" );
}

void runW01( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) w.load( op );
        else if( op.name == "save" && w.loaded )
        {
            prepareTarget( op, "/sim/out.igs", w.ref );
            bool ok, hurt;
            { Armed a( w.resolveSave( op ) ); ok = w.doc.Write( "/sim/out.igs", true ); hurt = seam::io_error_fired(); }
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a save left a file open" );
            std::string got = seam::get( "/sim/out.igs" );
            trace( strf( "save %d %d %016llx", ok, hurt, (unsigned long long) hash64( got ) ) );
            if( ok ) REQUIRE( got == w.ref, hurt ? "acknowledged-but-incomplete" : "acknowledged-but-wrong", FirstDiff( w.ref, got ) );
            else REQUIRE( hurt, "save-failed-without-error", "every system call succeeded" );
            w.bystanders();
            if( seam::fired() ) Nontrivial();
            ++g_stats.probes[ok ? ( hurt ? "survived-error" : "acknowledged" ) : "reported-failure"];
            if( !ok && !hurt ) return;
        }
    }
}
void genW01( uint64_t seed, bool t, Script& s ) { genSave( seed, t, s, 2 ); }
RegScenario rW01( Scenario{ "W01", genW01, runW01, "a run is non-trivial when at least one injected I/O fault or short transfer fired during a save" } );

void runW02( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) w.load( op );
        else if( op.name == "save" && w.loaded )
        {
            prepareTarget( op, "/sim/out.igs", w.ref );
            bool ok;
            { Armed a( w.resolveSave( op ) ); ok = w.doc.Write( "/sim/out.igs", true ); }
            trace( strf( "save %d %zu %016llx", ok, seam::get( "/sim/out.igs" ).size(), (unsigned long long) hash64( w.ref ) ) );
            if( ok ) continue;
            // the disk recovers; a later save must deliver everything
            bool again = w.doc.Write( "/sim/retry/out.igs", true );
            REQUIRE( again, "retry-refused", "a save after a failed save was refused" );
            std::string got = seam::get( "/sim/retry/out.igs" );
            REQUIRE( got == w.ref, "damaged-by-failed-save", FirstDiff( w.ref, got ) );
            trace( "retry ok" );
            Nontrivial();
            ++g_stats.probes["recovered"];
        }
    }
}
void genW02( uint64_t seed, bool t, Script& s ) { genSave( seed, t, s, 4 ); }
RegScenario rW02( Scenario{ "W02", genW02, runW02, "a run is non-trivial when an injected fault made a save fail and a later save was compared" } );

void genW03( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough ) );
    int n = 1 + r.below( 4 );
    for( int i = 0; i < n; ++i )
    {
        Op w( "keep" );
        w.set( "old", (long) r.below( 6 ) );        // 0 nothing, 1 file, 2 unreadable, 3 read-only, 4 empty file, 5 earlier save
        if( r.chance( 1, 3 ) ) w.fault( 'o', 1 + r.below( 3 ), "appear", r.below( 100 ) );
        else if( r.chance( 1, 4 ) ) w.fault( 'o', 1 + r.below( 2 ), r.pick( std::vector<std::string>{ "eio", "emfile", "eacces" } ) );
        if( r.chance( 1, 3 ) ) BenignWrite( r, w );
        if( r.chance( 1, 6 ) ) hardWrite( r, w );
        s.ops.push_back( w );
    }
}
void runW03( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    const std::string P = "/sim/out.igs";
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) w.load( op );
        else if( op.name == "keep" && w.loaded )
        {
            int old = op.num( "old" );
            seam::remove( P );
            std::string before;
            if( old )
            {
                before = old == 4 ? "" : old == 5 ? w.ref : FOREIGN;
                seam::put( P, before );
                if( old == 2 ) seam::files[P]->readable = false;
                if( old == 3 ) seam::files[P]->writable = false;
            }
            bool ok, hurt, there;
            { Armed a( w.resolveSave( op ) ); ok = w.doc.Write( P.c_str(), false ); hurt = seam::io_error_fired(); }
            there = seam::exists( P );
            std::string got = seam::get( P );
            bool appeared = got.compare( 0, 15, "foreign content" ) == 0;
            trace( strf( "keep old %d ok %d hurt %d appeared %d", old, ok, hurt, appeared ) );
            if( seam::appeared() )
            {
                ++g_stats.probes["raced"];
                REQUIRE( there && appeared && seam::files[P]->version == 0, "raced-file-destroyed", "a file created by another process while the save started was overwritten" );
                REQUIRE( !ok, "raced-acknowledged", "the save was acknowledged although another file is in its place" );
                Nontrivial();
            }
            else if( old )
            {
                ++g_stats.probes["existing"];
                REQUIRE( there && got == before && seam::files[P]->version == 0, "existing-file-changed", "an existing file was modified although overwriting was not allowed: " + FirstDiff( before, got ) );
                REQUIRE( !ok, "existing-acknowledged", "the save was acknowledged although the file already existed" );
                Nontrivial();
            }
            else
            {
                if( ok ) REQUIRE( got == w.ref, "acknowledged-but-wrong", FirstDiff( w.ref, got ) );
                else REQUIRE( hurt, "new-file-refused", "nothing was in the way and no error occurred" );
            }
            w.bystanders();
        }
    }
}
RegScenario rW03( Scenario{ "W03", genW03, runW03, "a run is non-trivial when the target existed before the save or was created by another process while the save was starting" } );

// ---------------------------------------------------------------- crash
void genW04( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough ) );
    int n = 1 + r.below( thorough ? 12 : 6 );
    for( int i = 0; i < n; ++i )
    {
        Op w( "crash" );
        w.set( "old", (long) r.below( 3 ) );
        if( r.chance( 1, 3 ) ) w.set( "chunk", r.pick( std::vector<long>{ 80, 81, 512, 4096 } ) );
        w.fault( 'w', callPos( r ), "crash", (long) r.below( r.chance( 1, 2 ) ? 200 : 9000 ) );
        if( r.chance( 1, 3 ) ) { w.set( "lose", 1 + r.below( 3 ) ); w.set( "block", r.pick( std::vector<long>{ 512, 4096, 81 } ) ); w.set( "at", (long) r.below( 1000000 ) ); }
        s.ops.push_back( w );
    }
    int t = r.below( 8 );
    for( int i = 0; i < t; ++i )
    {
        // a prefix of the finished file survives, cut at any byte
        Op c( "cut" );
        c.set( "permille", (long) r.below( 1000 ) );
        c.set( "tail", r.chance( 1, 2 ) ? (long) r.below( 170 ) : -1L );
        s.ops.push_back( c );
    }
}
void judgeRemains( World& w, const std::string& left )
{
    seam::put( "/sim/crash/out.igs", left );
    IGES after;
    bool ok = after.Read( "/sim/crash/out.igs" );
    trace( strf( "remains %zu ok %d", left.size(), ok ) );
    if( left == w.ref ) { REQUIRE( ok, "complete-file-refused", "a complete file was refused" ); return; }
    Nontrivial();
    if( !ok ) { ++g_stats.probes["refused"]; return; }
    ++g_stats.probes["accepted"];
    bool wr = after.Write( "/sim/crash2/out.igs", true );
    std::string got = wr ? seam::get( "/sim/crash2/out.igs" ) : "";
    REQUIRE( got == w.ref, "damaged-file-accepted", strf( "%zu of %zu bytes survived and were accepted as a different document; ", left.size(), w.ref.size() ) + FirstDiff( w.ref, got ) );
}
void runW04( const Script& s )
{
    World w;
    seam::set_clock( 1700000000, {} );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) w.load( op );
        else if( op.name == "crash" && w.loaded )
        {
            prepareTarget( op, "/sim/out.igs", w.ref );
            bool died;
            { Armed a( w.resolveSave( op ) ); w.doc.Write( "/sim/out.igs", true ); died = seam::crashed(); }
            if( !died ) { trace( "no crash" ); continue; }
            std::string left = seam::get( "/sim/out.igs" );
            if( op.num( "lose" ) && !left.empty() )
            {
                // delayed allocation: the length is durable, some blocks are not
                size_t b = std::max( 1L, op.num( "block", 512 ) );
                size_t n = left.size() / b + 1;
                for( long k = 0; k < op.num( "lose" ); ++k )
                {
                    size_t q = ( op.num( "at" ) + 7 * k ) % n;
                    for( size_t i = q * b; i < ( q + 1 ) * b && i < left.size(); ++i ) left[i] = 0;
                }
                ++g_stats.faults["lost-block"];
            }
            judgeRemains( w, left );
        }
        else if( op.name == "cut" && w.loaded )
        {
            size_t n = op.num( "tail", -1 ) >= 0 ? w.ref.size() - std::min<size_t>( w.ref.size(), op.num( "tail" ) ) : w.ref.size() * op.num( "permille" ) / 1000;
            ++g_stats.faults["truncated"];
            judgeRemains( w, w.ref.substr( 0, n ) );
        }
    }
}
RegScenario rW04( Scenario{ "W04", genW04, runW04, "a run is non-trivial when the crash left something other than the complete file and a fresh reader judged it" } );

// ---------------------------------------------------------------- loading
void genR01( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    s.ops.push_back( docOp( r, thorough, "doc" ) );
    s.ops.push_back( docOp( r, thorough, "good" ) );
    int n = 1 + r.below( 4 );
    for( int i = 0; i < n; ++i )
    {
        Op l( "load" );
        if( r.chance( 1, 3 ) ) l.set( "first", 1 );         // the object already holds another document
        switch( r.below( 5 ) )
        {
            case 0: l.fault( 'o', 1 + r.below( 2 ), r.pick( std::vector<std::string>{ "eio", "eacces", "emfile" } ) ); break;
            case 1: case 2: l.fault( 'r', callPos( r ), "eio" ); l.set( "chunk", r.pick( std::vector<long>{ 80, 81, 333, 1024, 4096 } ) ); break;
            case 3: if( r.chance( 1, 2 ) ) l.set( "cut", (long) r.below( 1000 ) ); else l.set( "cutend", 1 + r.below( r.chance( 1, 2 ) ? 82 : 400 ) ); break;
            default: l.set( "missing", 1 );
        }
        if( r.chance( 1, 2 ) ) BenignRead( r, l );
        s.ops.push_back( l );
    }
}
void runR01( const Script& s )
{
    World w;
    DocM gm;
    std::string goodRef, text;
    bool haveGood = false;
    seam::set_clock( 1700000000, {} );
    std::unique_ptr<IGES> obj( new IGES );
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" ) { w.load( op ); text = seam::get( "/sim/in.igs" ); }
        else if( op.name == "good" )
        {
            seam::put( "/sim/good.igs", TextFor( op, &gm ) );
            IGES twin;
            REQUIRE( twin.Read( "/sim/good.igs" ), "setup", "a valid file was refused" );
            haveGood = !ExpectDoc( gm ).ents.empty();
            if( haveGood ) { REQUIRE( twin.Write( "/sim/gref/out.igs", true ), "setup", "reference save failed" ); goodRef = seam::get( "/sim/gref/out.igs" ); }
        }
        else if( op.name == "load" && haveGood && w.loaded )
        {
            obj->Clear();
            if( op.num( "first" ) )
            {
                // a load into an object which holds a document is refused and changes nothing
                REQUIRE( obj->Read( "/sim/good.igs" ), "not-reusable", "a valid file was refused after Clear()" );
                seam::put( "/sim/in.igs", text );
                bool ok;
                { Armed a( w.resolveLoad( op ) ); ok = obj->Read( "/sim/in.igs" ); }
                if( !ok )
                {
                    REQUIRE( obj->Write( "/sim/out.igs", true ), "refused-load-damaged", "saving failed after a refused load" );
                    std::string got = seam::get( "/sim/out.igs" );
                    REQUIRE( got == goodRef, "refused-load-damaged", FirstDiff( goodRef, got ) );
                    ++g_stats.probes["refused-busy"];
                }
                obj->Clear();
            }
            seam::put( "/sim/in.igs", op.has( "cut" ) ? text.substr( 0, text.size() * op.num( "cut" ) / 1000 )
                : op.has( "cutend" ) ? text.substr( 0, text.size() - std::min<size_t>( text.size(), op.num( "cutend" ) ) ) : text );
            if( op.num( "missing" ) ) seam::remove( "/sim/in.igs" );
            bool ok, hurt;
            Op act = w.resolveLoad( op );
            if( seam::exists( "/sim/in.igs" ) ) seam::put( "/sim/in.igs", seam::get( "/sim/in.igs" ) );     // nobody has read it yet
            { Armed a( act ); ok = obj->Read( "/sim/in.igs" ); hurt = seam::io_error_fired(); }
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a load left a file open" );
            trace( strf( "load %d hurt %d", ok, hurt ) );
            if( ok )
            {
                bool wr = obj->Write( "/sim/out.igs", true );
                std::string got = seam::get( "/sim/out.igs" );
                REQUIRE( wr && got == w.ref, "partial-load-acknowledged", FirstDiff( w.ref, wr ? got : "" ) );
                size_t last = text.find_last_not_of( " \r\n" ), seen = seam::delivered( "/sim/in.igs" );
                // the sequence number and padding of the last record carry nothing
                REQUIRE( seen + 8 > last, "partial-load-acknowledged", strf( "success was reported after %zu of %zu bytes", seen, last + 1 ) );
                ++g_stats.probes["loaded"];
                continue;
            }
            REQUIRE( hurt || op.has( "cut" ) || op.has( "cutend" ) || op.num( "missing" ), "load-failed-without-error", "every system call succeeded" );
            ++g_stats.probes["load-failed"];
            Nontrivial();
            seam::remove( "/sim/left.igs" );
            bool wr = obj->Write( "/sim/left.igs", true );
            REQUIRE( !wr && !seam::exists( "/sim/left.igs" ), "leftovers", "after a failed load the object still holds a document" );
            REQUIRE( obj->Read( "/sim/good.igs" ), "not-reusable", "a valid file was refused after a failed load" );
            REQUIRE( obj->Write( "/sim/out.igs", true ), "not-reusable", "saving failed after a failed load" );
            std::string got = seam::get( "/sim/out.igs" );
            REQUIRE( got == goodRef, "contaminated", FirstDiff( goodRef, got ) );
        }
    }
}
RegScenario rR01( Scenario{ "R01", genR01, runR01, "a run is non-trivial when a load failed because of an injected fault or damage and the object was reused afterwards" } );
}
