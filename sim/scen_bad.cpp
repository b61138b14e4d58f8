// R02: whatever a file contains, loading it returns; damaged files do no damage
#include "scen.h"
#include <algorithm>
#include <sstream>

namespace
{
// line-level view of a file being damaged
struct Lines
{
    std::vector<std::string> l;
    explicit Lines( const std::string& t )
    {
        std::istringstream in( t );
        std::string s;
        while( std::getline( in, s ) ) l.push_back( s );
    }
    std::string join() const { std::string o; for( auto& s : l ) o += s + "\n"; return o; }
    // index of a random line of section c (or -1)
    int pick( char c, uint64_t k ) const
    {
        std::vector<int> v;
        for( size_t i = 0; i < l.size(); ++i ) if( l[i].size() > 72 && l[i][72] == c ) v.push_back( i );
        return v.empty() ? -1 : v[k % v.size()];
    }
};

std::string rj8( long v ) { return strf( "%8ld", v ).substr( 0, 8 ); }

// one act of damage; every choice comes from the op's own seed
std::string damage( const std::string& text, const Op& op )
{
    Rng r( op.u64( "seed" ) );
    std::string k = op.name;
    std::string t = text;
    if( t.empty() ) return t;
    if( k == "flip" )
    {
        size_t p = r.below( t.size() );
        t[p] = r.chance( 1, 2 ) ? (char)( t[p] ^ ( 1 << r.below( 8 ) ) ) : (char) r.below( 256 );
    }
    else if( k == "digit" )
    {   // another digit, sign, letter or delimiter in place of a digit
        for( int n = 0; n < 200; ++n )
        {
            size_t p = r.below( t.size() );
            if( isdigit( (unsigned char) t[p] ) ) { t[p] = "0123456789-+.,;HED "[r.below( 19 )]; break; }
        }
    }
    else if( k == "cut" ) t.resize( r.below( t.size() ) );
    else
    {
        Lines f( t );
        if( k == "dropline" && !f.l.empty() ) f.l.erase( f.l.begin() + r.below( f.l.size() ) );
        else if( k == "dupline" && !f.l.empty() ) { size_t i = r.below( f.l.size() ); f.l.insert( f.l.begin() + i, f.l[i] ); }
        else if( k == "swapline" && f.l.size() > 1 ) { size_t i = r.below( f.l.size() - 1 ); std::swap( f.l[i], f.l[i + 1] ); }
        else if( k == "joinline" && f.l.size() > 1 ) { size_t i = r.below( f.l.size() - 1 ); f.l[i] += f.l[i + 1]; f.l.erase( f.l.begin() + i + 1 ); }
        else if( k == "longline" && !f.l.empty() ) { size_t i = r.below( f.l.size() ); f.l[i] += std::string( 1 + r.below( 300 ), ' ' ); }
        else if( k == "shortline" && !f.l.empty() ) { size_t i = r.below( f.l.size() ); f.l[i].resize( r.below( f.l[i].size() + 1 ) ); }
        else if( k == "defield" )
        {   // an interesting number in a directory field
            int i = f.pick( 'D', r.next() );
            int n = std::count_if( f.l.begin(), f.l.end(), []( const std::string& s ) { return s.size() > 72 && s[72] == 'D'; } );
            if( i >= 0 && f.l[i].size() >= 72 )
            {
                static const std::vector<long> odd = { 0, 1, -1, 2, 3, -3, 100, 110, 124, 126, 142, 144, 180, 308, 314, 402, 406, 408, 502, 504, 508, 510, 514, 7777777, -777777, 9999999, 99999999 };
                long v = r.chance( 1, 2 ) ? r.pick( odd ) : r.chance( 1, 2 ) ? 2 * (long) r.below( n ) + 1 : -( 2 * (long) r.below( n ) + 1 );
                f.l[i].replace( 8 * r.below( 9 ), 8, rj8( v ) );
            }
        }
        else if( k == "denum" )
        {   // references between entities redirected: any parameter that looks like a pointer
            int i = f.pick( 'P', r.next() );
            int n = std::count_if( f.l.begin(), f.l.end(), []( const std::string& s ) { return s.size() > 72 && s[72] == 'D'; } );
            if( i >= 0 && f.l[i].size() >= 72 )
            {
                std::vector<std::pair<size_t, size_t>> tok;
                size_t b = 0;
                for( size_t p = 0; p < 64; ++p )
                    if( f.l[i][p] == ',' || f.l[i][p] == ';' ) { tok.push_back( { b, p } ); b = p + 1; }
                if( !tok.empty() )
                {
                    auto q = r.pick( tok );
                    static const std::vector<std::string> nasty = { "", "0", "-1", "1", "2", "99999", "2147483647", "-2147483648", "4294967296", "1e308", "-1e308", "1e-308", "nan", "inf", "1.0.0", "5Habc", "99999Habc", "-3Hx", "1H", "1000000", "65536", "1.5", "." };
                    std::string v = r.chance( 1, 2 ) ? r.pick( nasty ) : strf( "%ld", r.chance( 1, 5 ) ? -( 2 * (long) r.below( n ) + 1 ) : 2 * (long) r.below( n ) + 1 );
                    std::string body = f.l[i].substr( 0, q.first ) + v + f.l[i].substr( q.second, 64 - q.second );
                    body.resize( 64, ' ' );
                    f.l[i].replace( 0, 64, body );
                }
            }
        }
        else if( k == "global" )
        {
            int i = f.pick( 'G', r.next() );
            if( i >= 0 && f.l[i].size() >= 72 )
            {
                std::vector<std::pair<size_t, size_t>> tok;
                size_t b = 0;
                for( size_t p = 0; p < 72; ++p )
                    if( f.l[i][p] == ',' || f.l[i][p] == ';' ) { tok.push_back( { b, p } ); b = p + 1; }
                if( !tok.empty() )
                {
                    auto q = r.pick( tok );
                    static const std::vector<std::string> nasty = { "", "0", "-1", "99", "0.0", "-1.0", "1e308", "1e-308", "1H,", "1H;", "1H\0", "2Hmm", "0H", "13H000101.000000", "15H20001301.250000", "99999H", "2147483648" };
                    std::string body = f.l[i].substr( 0, q.first ) + r.pick( nasty ) + f.l[i].substr( q.second, 72 - q.second );
                    body.resize( 72, ' ' );
                    f.l[i].replace( 0, 72, body );
                }
            }
        }
        else if( k == "type" )
        {   // an entity of one type read as another
            int i = f.pick( 'D', r.next() );
            if( i >= 0 && i + 1 < (int) f.l.size() )
            {
                if( f.l[i].compare( 0, 8, f.l[i + 1].substr( 0, 8 ) ) ) --i;
                static const std::vector<long> ty = { 0, 100, 102, 104, 108, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 186, 308, 314, 402, 406, 408, 502, 504, 508, 510, 514, 9999 };
                long v = r.pick( ty );
                if( i >= 0 && f.l[i].size() >= 8 && f.l[i + 1].size() >= 8 )
                {
                    f.l[i].replace( 0, 8, rj8( v ) );
                    f.l[i + 1].replace( 0, 8, rj8( v ) );
                    long p = strtol( f.l[i].substr( 8, 8 ).c_str(), nullptr, 10 );
                    if( r.chance( 3, 4 ) )
                    {
                        // keep the parameter record consistent so that the damage gets further
                        int n = 0;
                        for( auto& s : f.l ) if( s.size() > 72 && s[72] == 'P' && ++n == p )
                        {
                            size_t c = s.find_first_of( ",;" );
                            if( c != std::string::npos && c < 8 ) { std::string body = strf( "%ld", v ) + s.substr( c, 64 - c ); body.resize( 64, ' ' ); s.replace( 0, 64, body ); }
                        }
                    }
                }
            }
        }
        else if( k == "splice" )
        {   // lines of one part of the file over another
            if( f.l.size() > 3 )
            {
                size_t a = r.below( f.l.size() ), b = r.below( f.l.size() ), n = 1 + r.below( 6 );
                for( size_t i = 0; i < n && a + i < f.l.size() && b + i < f.l.size(); ++i )
                    if( f.l[a + i].size() >= 64 && f.l[b + i].size() >= 64 ) f.l[a + i].replace( 0, 64, f.l[b + i].substr( 0, 64 ) );
            }
        }
        t = f.join();
    }
    return t;
}
// damage to the meaning instead of the text: a well laid out file which says something impossible
void distort( DocM& m, long nD, Rng& r )
{
    if( m.ents.empty() ) return;
    EntM& e = m.ents[r.below( m.ents.size() )];
    long n = m.ents.size();
    auto ref = [&]() -> long
    {
        switch( r.below( 8 ) )
        {
            case 0: case 1: return nD + 1;          // the first entity past the end
            case 2: return nD + 1 + 2 * (long) r.below( 3 );
            case 3: return nD - 1 + (long) r.below( 2 );
            case 4: return r.pick( std::vector<long>{ 0, -1, 2, 9999999, -9999999, 2147483647, -2147483647 } );
            case 5: return -( 2 * (long) r.below( n ) + 1 );
            default: return 2 * (long) r.below( n ) + 1;
        }
    };
    int k = r.below( 12 );
    if( k < 8 && !e.p.empty() )
    {
        size_t i = r.below( e.p.size() );
        if( r.chance( 1, 3 ) ) i = r.below( std::min<size_t>( e.p.size(), 6 ) );
        if( r.chance( 1, 2 ) )
        {   // a reference, if there is one
            std::vector<size_t> v;
            for( size_t q = 0; q < e.p.size(); ++q ) if( e.p[q].k == 'p' ) v.push_back( q );
            if( !v.empty() ) i = r.pick( v );
        }
        Val& v = e.p[i];
        if( k == 7 )
        {
            int w = r.below( 4 );
            if( w == 0 ) e.p.erase( e.p.begin() + i );
            else if( w == 1 ) { Val x = v; e.p.insert( e.p.begin() + i, x ); }
            else if( w == 2 ) e.p.resize( i );
            else std::swap( e.p[i], e.p[r.below( e.p.size() )] );
        }
        else if( v.k == 'p' ) v = Val::I( ref() );
        else if( v.k == 'i' )
        {
            long x = v.i;
            v.i = r.chance( 1, 2 ) ? x + r.pick( std::vector<long>{ -1, 1, -2, 2, 10 } ) : r.pick( std::vector<long>{ 0, -1, 1, 2, 3, 7, -x, 100, 1000, 100000, 1000000000, 2147483647, -2147483647 } );
        }
        else if( v.k == 'r' )
        {
            if( i && e.p[i - 1].k == 'r' && r.chance( 1, 3 ) ) v.r = e.p[i - 1].r;
            else v.r = r.pick( std::vector<double>{ 0, -v.r, 1e308, -1e308, 1e-300, 1e9, v.r * 2, -1, 1 } );
        }
        else if( v.k == 's' ) v.s = r.chance( 1, 2 ) ? std::string() : std::string( 1 + r.below( 9000 ), 'x' );
    }
    else if( k == 8 )
    {
        long* f[] = { &e.structure, &e.lineFont, &e.level, &e.view, &e.labelDisp };
        long x = ref();
        *f[r.below( 5 )] = r.chance( 1, 2 ) ? -x : x;
    }
    else if( k == 9 && r.chance( 1, 3 ) )
    {   // transforms of transforms, in a ring
        std::vector<int> v;
        for( int q = 0; q < n; ++q ) if( m.ents[q].type == 124 ) v.push_back( q );
        while( v.size() > 2 && r.chance( 1, 3 ) ) v.pop_back();
        for( size_t q = 0; q < v.size(); ++q ) m.ents[v[q]].xform = v[( q + 1 ) % v.size()];
    }
    else if( k == 9 ) { int x = r.below( n ); if( r.chance( 1, 2 ) ) e.xform = x; else e.colorEnt = x; }
    else if( k == 10 )
    {
        std::vector<int>& x = r.chance( 1, 2 ) ? e.exA : e.exB;
        if( !x.empty() && r.chance( 1, 2 ) ) x.push_back( r.pick( x ) ); else x.push_back( r.below( n ) );
    }
    else
    {
        int w = r.below( 4 );
        if( w == 0 ) e.form = r.pick( std::vector<int>{ 0, 1, 2, 3, 5, 9, 12, 15, -1, 31, 99 } );
        else if( w == 1 ) e.type = r.pick( m.ents ).type;
        else if( w == 2 ) { e.sub = r.below( 5 ); e.use = r.below( 8 ); e.hier = r.below( 4 ); }
        else e.weight = r.pick( std::vector<int>{ -1, 5, 1000, 9999999 } );
    }
}
const std::vector<std::string> KINDS = { "value", "value", "value", "value", "value", "flip", "digit", "cut", "dropline", "dupline", "swapline", "joinline", "longline", "shortline", "defield", "defield", "denum", "denum", "denum", "denum", "global", "type", "splice" };

void gen( uint64_t seed, bool thorough, Script& s )
{
    Rng r( seed );
    Op doc( "doc" );
    doc.set( "seed", (long) ( r.next() >> 2 ) ).set( "style", (long) ( r.next() >> 2 ) ).set( "n", 1 + r.below( thorough ? 6 : 4 ) );
    s.ops.push_back( doc );
    int n = 1 + r.below( r.chance( 1, 2 ) ? 2 : 6 );
    bool values = r.chance( 1, 3 );         // nothing but
    for( int i = 0; i < n; ++i )
    {
        Op d( values ? "value" : r.pick( KINDS ) );
        d.set( "seed", (long) ( r.next() >> 2 ) );
        s.ops.push_back( d );
        if( i + 1 == n || r.chance( 1, 3 ) ) s.ops.push_back( Op( "load" ) );
    }
}

void run( const Script& s )
{
    std::string text, good, ref;
    DocM m;
    Style st;
    bool have = false;
    seam::set_clock( 1700000000, {} );
    std::unique_ptr<IGES> obj( new IGES );
    seam::alloc_limit = 64ull << 20;
    for( auto& op : s.ops )
    {
        step();
        if( op.name == "doc" )
        {
            good = text = TextFor( op, &m );
            { Rng sr( op.u64( "style" ) ); st = StyleFor( sr ); st.omitDef = false; }
            seam::put( "/sim/good.igs", good );
            IGES twin;
            REQUIRE( twin.Read( "/sim/good.igs" ), "setup", "a valid file was refused" );
            have = twin.Write( "/sim/ref/out.igs", true );
            ref = seam::get( "/sim/ref/out.igs" );
        }
        else if( op.name == "load" && have )
        {
            seam::put( "/sim/bad.igs", text );
            if( getenv( "SIM_DUMP" ) ) fputs( text.c_str(), stderr );
            obj->Clear();
            bool ok = false;
            try { ok = obj->Read( "/sim/bad.igs" ); }
            catch( std::exception& e ) { fail( std::string( "load-threw:" ) + typeid( e ).name(), e.what() ); }
            trace( strf( "load %d", ok ) );
            Nontrivial();
            ++g_stats.probes[ok ? "accepted" : "refused"];
            REQUIRE( seam::open_handles() == 0, "handle-leak", "a load left a file open" );
            bool wr = false;
            seam::remove( "/sim/out.igs" );
            try { wr = obj->Write( "/sim/out.igs", true ); }
            catch( std::exception& e ) { fail( std::string( "save-threw:" ) + typeid( e ).name(), e.what() ); }
            if( !ok ) REQUIRE( !wr, "leftovers", "after a refused load the object still holds a document" );
            if( wr )
            {
                ++g_stats.probes["resaved"];
                DocM got;
                std::string err, out = seam::get( "/sim/out.igs" );
                trace( strf( "resave %016llx", (unsigned long long) hash64( out ) ) );
                REQUIRE( ParseText( out, got, err ), "resave-malformed", err );
            }
            // destroying what was loaded is part of the exercise
            obj->Clear();
            REQUIRE( obj->Read( "/sim/good.igs" ), "not-reusable", "a valid file was refused afterwards" );
            REQUIRE( obj->Write( "/sim/good/out.igs", true ), "not-reusable", "saving failed afterwards" );
            std::string g = seam::get( "/sim/good/out.igs" );
            REQUIRE( g == ref, "contaminated", FirstDiff( ref, g ) );
        }
        else if( have )
        {
            ++g_stats.faults["file-" + op.name];
            if( op.name == "value" )
            {
                Rng r( op.u64( "seed" ) );
                DocM ok = m;
                long nD = 0;
                std::istringstream in( good );
                for( std::string l; std::getline( in, l ); ) nD += l.size() > 72 && l[72] == 'D';
                distort( m, nD, r );
                text = WriteText( m, st );
                if( r.chance( 1, 3 ) ) m = ok;      // (otherwise the distortions add up)
            }
            else text = damage( text, op );
        }
    }
}
RegScenario reg( Scenario{ "R02", gen, run, "a run is non-trivial when at least one damaged file was given to the reader" } );
}
