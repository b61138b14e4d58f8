#include "scen.h"

Style StyleFor( Rng& r )
{
    Style s;
    s.wrap = r.below( 3 );
    s.num = r.below( 5 );
    s.padNum = r.chance( 1, 3 );
    s.omitDef = r.chance( 1, 3 );
    s.crlf = r.chance( 1, 4 );
    s.splitStr = r.chance( 1, 2 );
    s.extra = r.chance( 1, 3 ) ? 1 + r.below( 4 ) : 0;
    s.r = r.next();
    return s;
}

GenOpt OptFor( const Op& op )
{
    GenOpt o;
    o.maxRoots = std::max( 1L, op.num( "n", 5 ) );
    if( op.num( "plain" ) ) { o.de = false; o.names = false; o.comments = false; }
    if( op.num( "nobrep" ) ) o.brep = false;
    if( op.num( "nosub" ) ) o.subfig = false;
    if( op.num( "noparc" ) ) o.paramArc = false;
    if( op.num( "api" ) ) { o.api = true; o.names = false; o.brep = false; }
    return o;
}

DocM DocFor( const Op& op )
{
    Rng r( op.u64( "seed" ) );
    DocM d = GenDoc( r, OptFor( op ) );
    // a long prologue: the start section alone exceeds the buffer of a file stream
    for( long i = 0, n = op.num( "head" ); i < n; ++i )
    {
        std::string l = strf( "%ld ", i );
        int len = 72 - (int) l.size() - ( r.chance( 1, 2 ) ? 0 : (int) r.below( 60 ) );
        for( int k = 0; k < len; ++k ) l += "abcdefghij KLMNOP,;0123456789SGDPT"[k + 1 == len ? r.below( 10 ) : r.below( 34 )];
        d.start.push_back( l );
    }
    return d;
}

std::string TextFor( const Op& op, DocM* m )
{
    DocM d = DocFor( op );
    Rng r( op.u64( "style" ) );
    std::string t = WriteText( d, StyleFor( r ) );
    if( getenv( "SIM_DUMP" ) ) fputs( t.c_str(), stderr );
    if( m ) *m = d;
    return t;
}

void BenignRead( Rng& r, Op& op )
{
    if( r.chance( 1, 2 ) ) op.set( "chunk", r.pick( std::vector<long>{ 1, 7, 63, 80, 81, 511, 4096 } ) );
    int n = r.below( 4 );
    for( int i = 0; i < n; ++i )
    {
        long at = 1 + r.below( r.chance( 1, 2 ) ? 4 : 40 );
        if( r.chance( 1, 2 ) ) op.fault( 'r', at, "eintr" );
        else op.fault( 'r', at, "short", 1 + r.below( 200 ) );
    }
}
void BenignWrite( Rng& r, Op& op )
{
    if( r.chance( 1, 2 ) ) op.set( "chunk", r.pick( std::vector<long>{ 1, 7, 79, 80, 81, 511, 4096 } ) );
    int n = r.below( 4 );
    for( int i = 0; i < n; ++i )
    {
        long at = 1 + r.below( r.chance( 1, 2 ) ? 4 : 20 );
        if( r.chance( 1, 2 ) ) op.fault( 'w', at, "eintr" );
        else op.fault( 'w', at, "short", 1 + r.below( 200 ) );
    }
}

Op Resolve( const Op& op, const std::function<void()>& go )
{
    auto rel = []( const Fault& f ) { return f.at <= 0 || f.at >= PERMILLE; };
    bool any = false;
    for( auto& f : op.faults ) any = any || rel( f );
    if( !any ) return op;
    Op p = op;
    p.faults.clear();
    p.a.erase( "cap" );
    for( auto& f : op.faults )
        if( !rel( f ) && ( f.kind == "short" || f.kind == "eintr" ) ) p.faults.push_back( f );
    std::map<char, long> n;
    {
        Armed a( p );
        go();
        for( auto& f : op.faults ) n[f.cls] = seam::calls( f.cls );
    }
    Op q = op;
    for( auto& f : q.faults )
    {
        if( f.at >= PERMILLE ) f.at = 1 + std::max( 0L, n[f.cls] - 1 ) * ( f.at - PERMILLE ) / 1000;
        else if( f.at <= 0 ) f.at = std::max( 1L, n[f.cls] + f.at );
    }
    return q;
}

std::string FirstDiff( const std::string& a, const std::string& b )
{
    if( a == b ) return "";
    size_t i = 0;
    while( i < a.size() && i < b.size() && a[i] == b[i] ) ++i;
    size_t l = a.rfind( '\n', i ? i - 1 : 0 );
    l = l == std::string::npos ? 0 : l + 1;
    auto line = [&]( const std::string& s ) { return l >= s.size() ? std::string( "<end>" ) : s.substr( l, std::min( s.find( '\n', l ), s.size() ) - l ).substr( 0, 90 ); };
    return strf( "sizes %zu/%zu, first difference at byte %zu\n  '%s'\n  '%s'", a.size(), b.size(), i, line( a ).c_str(), line( b ).c_str() );
}

DocM ExpectDoc( const DocM& in )
{
    DocM d = in;
    size_t n = d.ents.size();
    std::vector<char> dead( n, 0 );
    for( bool again = true; again; )
    {
        again = false;
        std::vector<int> refs( n, 0 );
        for( size_t i = 0; i < n; ++i )
        {
            if( dead[i] ) continue;
            const EntM& e = d.ents[i];
            auto hit = [&]( long t ) { if( t >= 0 && t != (long) i ) ++refs[t]; };
            hit( e.xform ); hit( e.colorEnt );
            for( auto& v : e.p ) if( v.k == 'p' ) hit( v.i );
            for( int x : e.exA ) hit( x );
            for( int x : e.exB ) hit( x );
        }
        for( size_t i = 0; i < n; ++i )
        {
            if( dead[i] || refs[i] ) continue;
            const EntM& e = d.ents[i];
            bool helper = e.type == 124 || e.type == 314 || e.type == 502 || e.type == 504 || e.type == 508 || e.type == 510;
            if( helper || e.sub != 0 ) { dead[i] = 1; again = true; }
        }
    }
    std::vector<int> to( n, -1 );
    DocM o;
    o.g = d.g; o.start = d.start;
    for( size_t i = 0; i < n; ++i ) if( !dead[i] ) { to[i] = o.ents.size(); o.ents.push_back( d.ents[i] ); }
    for( auto& e : o.ents )
    {
        if( e.xform >= 0 ) e.xform = to[e.xform];
        if( e.colorEnt >= 0 ) e.colorEnt = to[e.colorEnt];
        for( auto& v : e.p ) if( v.k == 'p' && v.i >= 0 ) v.i = to[v.i];
        for( int& x : e.exA ) x = to[x];
        for( int& x : e.exB ) x = to[x];
    }
    return o;
}

bool ParseFile( const std::string& path, DocM& out, std::string& err )
{
    return ParseText( seam::get( path ), out, err );
}
