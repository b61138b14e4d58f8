#include "model.h"
#include <charconv>
#include <cmath>
#include <cstring>
#include <algorithm>

// ------------------------------------------------------------- numbers
std::string fmtReal( double v )
{
    char b[64];
    auto r = std::to_chars( b, b + 64, v );
    std::string s( b, r.ptr );
    if( s.find( '.' ) == std::string::npos )
    {
        size_t e = s.find( 'e' );
        if( e == std::string::npos ) s += ".0";
        else s.insert( e, ".0" );
    }
    for( auto& c : s ) if( c == 'e' ) c = 'E';
    return s;
}

bool parseReal( const std::string& in, double& v )
{
    std::string s;
    for( char c : in ) if( c != ' ' ) s += c == 'D' || c == 'd' ? 'E' : c;
    if( !s.empty() && s[0] == '+' ) s.erase( 0, 1 );
    size_t e = s.find_first_of( "eE" );
    if( e != std::string::npos && e + 1 < s.size() && s[e + 1] == '+' ) s.erase( e + 1, 1 );
    if( s.empty() ) return false;
    if( s.back() == '.' ) s += '0';
    auto r = std::from_chars( s.data(), s.data() + s.size(), v );
    return r.ec == std::errc() && r.ptr == s.data() + s.size();
}

static bool parseInt( const std::string& in, long& v )
{
    std::string s;
    size_t a = in.find_first_not_of( ' ' );
    if( a == std::string::npos ) return false;
    size_t b = in.find_last_not_of( ' ' );
    s = in.substr( a, b - a + 1 );
    if( s[0] == '+' ) s.erase( 0, 1 );
    auto r = std::from_chars( s.data(), s.data() + s.size(), v );
    return r.ec == std::errc() && r.ptr == s.data() + s.size();
}

// ------------------------------------------------------------- schema
// Walks the untyped tokens of a record and gives each its type.  Returns the
// number of tokens the fixed part uses, or -1.
struct Walk
{
    std::vector<Val>& v;
    size_t n = 0;
    bool ok = true;
    explicit Walk( std::vector<Val>& x ) : v( x ) {}
    bool typed( char k )
    {
        if( n >= v.size() ) { ok = false; return false; }
        Val& x = v[n++];
        if( x.k == k ) return true;
        if( x.k == 'd' )
        {
            x.k = k;
            if( k == 'p' ) x.i = -1;
            return true;
        }
        if( x.k != 'n' ) { ok = false; return false; }   // 'n' numeric text held in s
        if( k == 'i' ) { if( !parseInt( x.s, x.i ) ) { ok = false; return false; } }
        else if( k == 'r' ) { if( !parseReal( x.s, x.r ) ) { ok = false; return false; } }
        else if( k == 'p' )
        {
            long t;
            if( !parseInt( x.s, t ) ) { ok = false; return false; }
            if( t == 0 ) x.i = -1;
            else if( t < 0 || ( t & 1 ) == 0 ) { ok = false; return false; }
            else x.i = ( t - 1 ) / 2;
        }
        else { ok = false; return false; }
        x.k = k;
        x.s.clear();
        return true;
    }
    long I() { size_t at = n; return typed( 'i' ) ? v[at].i : 0; }
    void R( long c = 1 ) { for( long j = 0; j < c && ok; ++j ) typed( 'r' ); }
    void P( long c = 1 ) { for( long j = 0; j < c && ok; ++j ) typed( 'p' ); }
    void S() { typed( 's' ); }
};

static long Schema( int type, std::vector<Val>& v )
{
    Walk w( v );
    switch( type )
    {
        case 100: w.R( 7 ); break;
        case 102: { long n = w.I(); w.P( n ); break; }
        case 104: w.R( 11 ); break;
        case 110: w.R( 6 ); break;
        case 120: w.P( 2 ); w.R( 2 ); break;
        case 122: w.P(); w.R( 3 ); break;
        case 124: w.R( 12 ); break;
        case 126: { long k = w.I(), m = w.I(); w.I(); w.I(); w.I(); w.I(); w.R( 2 + k + m ); w.R( k + 1 ); w.R( 3 * ( k + 1 ) ); w.R( 5 ); break; }
        case 128: { long a = w.I(), b = w.I(), c = w.I(), d = w.I(); for( int j = 0; j < 5; ++j ) w.I();
            long n = ( a + 1 ) * ( b + 1 ); w.R( 2 + a + c ); w.R( 2 + b + d ); w.R( n ); w.R( 3 * n ); w.R( 4 ); break; }
        case 142: w.I(); w.P( 3 ); w.I(); break;
        case 144: { w.P(); w.I(); long n = w.I(); w.P(); w.P( n ); break; }
        case 154: w.R( 8 ); break;
        case 164: w.P(); w.R( 4 ); break;
        case 180: { long n = w.I(); for( long j = 0; j < n && w.ok; ++j )
            {
                size_t at = w.n; long t = w.I();
                if( !w.ok ) break;
                if( t < 0 ) { v[at].k = 'p'; v[at].i = ( -t - 1 ) / 2; }
            } break; }
        case 186: { w.P(); w.I(); long n = w.I(); for( long j = 0; j < n && w.ok; ++j ) { w.P(); w.I(); } break; }
        case 308: { w.I(); w.S(); long n = w.I(); w.P( n ); break; }
        case 314: w.R( 3 ); if( w.n < v.size() && ( v[w.n].k == 's' || v[w.n].k == 'd' ) ) w.S(); break;
        case 406: w.I(); w.S(); break;
        case 408: w.P(); w.R( 4 ); break;
        case 502: { long n = w.I(); w.R( 3 * n ); break; }
        case 504: { long n = w.I(); for( long j = 0; j < n && w.ok; ++j ) { w.P(); w.P(); w.I(); w.P(); w.I(); } break; }
        case 508: { long n = w.I(); for( long j = 0; j < n && w.ok; ++j )
            { w.I(); w.P(); w.I(); w.I(); long k = w.I(); for( long q = 0; q < k && w.ok; ++q ) { w.I(); w.P(); } } break; }
        case 510: { w.P(); long n = w.I(); w.I(); w.P( n ); break; }
        case 514: { long n = w.I(); for( long j = 0; j < n && w.ok; ++j ) { w.P(); w.I(); } break; }
        default: return -1;
    }
    return w.ok ? (long) w.n : -1;
}

// ------------------------------------------------------------- parser
static bool tokenize( const std::string& s, size_t& at, char pd, char rd, std::vector<Val>& out, std::string& err )
{
    // from `at` to the record delimiter; `at` ends just past it
    for( ;; )
    {
        size_t b = at;
        while( b < s.size() && s[b] == ' ' ) ++b;
        size_t d = b;
        while( d < s.size() && isdigit( (unsigned char) s[d] ) ) ++d;
        Val v;
        if( d > b && d < s.size() && s[d] == 'H' )
        {
            long n = strtol( s.substr( b, d - b ).c_str(), nullptr, 10 );
            if( d + 1 + n > s.size() ) { err = "string runs past the end of the record"; return false; }
            v.k = 's';
            v.s = s.substr( d + 1, n );
            at = d + 1 + n;
            while( at < s.size() && s[at] == ' ' ) ++at;
        }
        else
        {
            size_t e = b;
            while( e < s.size() && s[e] != pd && s[e] != rd ) ++e;
            std::string t = s.substr( b, e - b );
            while( !t.empty() && t.back() == ' ' ) t.pop_back();
            if( t.empty() ) v.k = 'd';
            else { v.k = 'n'; v.s = t; }
            at = e;
        }
        if( at >= s.size() ) { err = "no record delimiter"; return false; }
        out.push_back( v );
        if( s[at] == rd ) { ++at; return true; }
        if( s[at] != pd ) { err = strf( "junk '%c' after parameter", s[at] ); return false; }
        ++at;
    }
}

static bool fld( const std::string& line, int f, long& v, bool blankOk )
{
    std::string t = line.substr( 8 * f, 8 );
    if( t.find_first_not_of( ' ' ) == std::string::npos ) { v = 0; return blankOk; }
    if( t.back() == ' ' ) return false;     // must be right justified
    return parseInt( t, v );
}

bool ParseText( const std::string& bytes, DocM& out, std::string& err, ParseInfo* pi )
{
    out = DocM();
    std::vector<std::string> L;
    size_t at = 0;
    while( at < bytes.size() )
    {
        size_t e = bytes.find( '\n', at );
        if( e == std::string::npos ) { err = "last line not terminated"; return false; }
        std::string l = bytes.substr( at, e - at );
        if( !l.empty() && l.back() == '\r' ) l.pop_back();
        if( l.size() != 80 ) { err = strf( "line %zu has %zu columns", L.size() + 1, l.size() ); return false; }
        L.push_back( l );
        at = e + 1;
    }
    std::map<char, std::vector<std::string>> sec;
    const char* order = "SGDPT";
    int pos = 0;
    for( size_t i = 0; i < L.size(); ++i )
    {
        char c = L[i][72];
        const char* q = strchr( order, c );
        if( !c || !q ) { err = strf( "line %zu: bad section letter", i + 1 ); return false; }
        if( q - order < pos ) { err = strf( "line %zu: section %c out of order", i + 1, c ); return false; }
        pos = q - order;
        sec[c].push_back( L[i] );
        long n;
        if( !parseInt( L[i].substr( 73 ), n ) || n != (long) sec[c].size() )
        { err = strf( "line %zu: sequence number '%s' (want %zu)", i + 1, L[i].substr( 73 ).c_str(), sec[c].size() ); return false; }
    }
    auto &S = sec['S'], &G = sec['G'], &D = sec['D'], &P = sec['P'], &T = sec['T'];
    if( S.empty() || G.empty() || T.size() != 1 ) { err = "missing section"; return false; }
    if( pi ) { pi->nS = S.size(); pi->nG = G.size(); pi->nD = D.size(); pi->nP = P.size(); }
    {
        struct { char c; size_t n; } w[4] = { { 'S', S.size() }, { 'G', G.size() }, { 'D', D.size() }, { 'P', P.size() } };
        for( int i = 0; i < 4; ++i )
        {
            long n;
            if( T[0][8 * i] != w[i].c || !parseInt( T[0].substr( 8 * i + 1, 7 ), n ) || n != (long) w[i].n )
            { err = strf( "terminate record count %c: '%s' (want %zu)", w[i].c, T[0].substr( 8 * i, 8 ).c_str(), w[i].n ); return false; }
        }
    }
    for( auto& l : S ) out.start.push_back( l.substr( 0, 72 ) );
    // globals
    {
        std::string g;
        for( auto& l : G ) g += l.substr( 0, 72 );
        size_t p = 0;
        char pd = ',', rd = ';';
        // the first two parameters define the delimiters
        if( g[0] == ',' ) p = 1;
        else if( g.compare( 0, 2, "1H" ) == 0 ) { pd = g[2]; p = 3; if( g[p] != pd ) { err = "globals: delimiter definition"; return false; } ++p; }
        else { err = "globals: delimiter definition"; return false; }
        if( g[p] == pd ) ++p;
        else if( g.compare( p, 2, "1H" ) == 0 ) { rd = g[p + 2]; p += 3; if( g[p] != pd ) { err = "globals: record delimiter"; return false; } ++p; }
        else { err = "globals: record delimiter definition"; return false; }
        std::vector<Val> v;
        if( !tokenize( g, p, pd, rd, v, err ) ) { err = "globals: " + err; return false; }
        if( g.find_first_not_of( ' ', p ) != std::string::npos ) { err = "globals: text after the record delimiter"; return false; }
        while( v.size() < 24 ) v.push_back( Val() );
        GlobM& o = out.g;
        o.pd = pd; o.rd = rd;
        auto str = [&]( int i, std::string& s ) { if( v[i].k == 's' ) s = v[i].s; else if( v[i].k == 'n' ) { err = strf( "global %d not a string", i + 3 ); return false; } else s.clear(); return true; };
        auto num = [&]( int i, long& n, long def ) { if( v[i].k == 'd' ) n = def; else if( v[i].k != 'n' || !parseInt( v[i].s, n ) ) { err = strf( "global %d not an integer", i + 3 ); return false; } return true; };
        auto rea = [&]( int i, double& n, double def ) { if( v[i].k == 'd' ) n = def; else if( v[i].k != 'n' || !parseReal( v[i].s, n ) ) { err = strf( "global %d not a real", i + 3 ); return false; } return true; };
        if( !( str( 0, o.sender ) && str( 1, o.file ) && str( 2, o.system ) && str( 3, o.preproc )
               && num( 4, o.intBits, 32 ) && num( 5, o.maxPowS, 38 ) && num( 6, o.sigS, 6 ) && num( 7, o.maxPowD, 308 ) && num( 8, o.sigD, 15 )
               && str( 9, o.receiver ) && rea( 10, o.scale, 1.0 ) && num( 11, o.units, 1 ) && str( 12, o.unitName )
               && num( 13, o.gradations, 1 ) && rea( 14, o.maxWidth, 0 ) && str( 15, o.date ) && rea( 16, o.minRes, 0 ) && rea( 17, o.maxCoord, 0 )
               && str( 18, o.author ) && str( 19, o.org ) && num( 20, o.version, 3 ) && num( 21, o.draft, 0 ) && str( 22, o.modDate ) && str( 23, o.proto ) ) )
            return false;
    }
    if( D.size() % 2 ) { err = "odd number of directory lines"; return false; }
    size_t nE = D.size() / 2;
    std::vector<char> used( P.size(), 0 );
    for( size_t e = 0; e < nE; ++e )
    {
        const std::string &a = D[2 * e], &b = D[2 * e + 1];
        EntM m;
        long f[18] = { 0 };
        auto bad = [&]( int i ) { err = strf( "entity %zu: directory field %d '%s'", e, i, ( i < 10 ? a : b ).substr( 8 * ( ( i - 1 ) % 9 ), 8 ).c_str() ); return false; };
        for( int i = 0; i < 8; ++i ) if( !fld( a, i, f[i], i > 1 ) ) return bad( i + 1 );
        if( !fld( b, 0, f[9], false ) ) return bad( 11 );
        for( int i = 1; i < 5; ++i ) if( !fld( b, i, f[9 + i], true ) ) return bad( 11 + i );
        if( f[0] != f[9] ) { err = strf( "entity %zu: types differ between directory lines", e ); return false; }
        m.type = f[0];
        m.structure = f[2]; m.lineFont = f[3]; m.level = f[4]; m.view = f[5]; m.labelDisp = f[7];
        if( f[6] ) { if( f[6] < 0 || !( f[6] & 1 ) ) return bad( 7 ); m.xform = ( f[6] - 1 ) / 2; }
        std::string st = a.substr( 64, 8 );
        for( auto& c : st ) if( c == ' ' ) c = '0';
        for( char c : st ) if( !isdigit( (unsigned char) c ) ) { err = strf( "entity %zu: status '%s'", e, st.c_str() ); return false; }
        m.blank = atoi( st.substr( 0, 2 ).c_str() ); m.sub = atoi( st.substr( 2, 2 ).c_str() );
        m.use = atoi( st.substr( 4, 2 ).c_str() ); m.hier = atoi( st.substr( 6, 2 ).c_str() );
        m.weight = f[10];
        if( f[11] < 0 ) { if( !( f[11] & 1 ) ) return bad( 13 ); m.colorEnt = ( -f[11] - 1 ) / 2; }
        else m.color = f[11];
        m.form = f[13];
        if( b.substr( 40, 16 ).find_first_not_of( " 0" ) != std::string::npos ) { err = strf( "entity %zu: reserved directory fields", e ); return false; }
        m.label = b.substr( 56, 8 );
        size_t q = m.label.find_first_not_of( ' ' );
        m.label = q == std::string::npos ? "" : m.label.substr( q );
        while( !m.label.empty() && m.label.back() == ' ' ) m.label.pop_back();
        if( !fld( b, 8, m.subscript, true ) ) return bad( 19 );
        long pp = f[1], pc = f[12];
        if( pp < 1 || pc < 1 || pp + pc - 1 > (long) P.size() ) { err = strf( "entity %zu: parameter lines %ld+%ld outside 1..%zu", e, pp, pc, P.size() ); return false; }
        std::string rec;
        for( long i = pp - 1; i < pp - 1 + pc; ++i )
        {
            if( used[i] ) { err = strf( "parameter line %ld belongs to two entities", i + 1 ); return false; }
            used[i] = 1;
            long de;
            if( P[i][64] != ' ' || !parseInt( P[i].substr( 65, 7 ), de ) || de != (long) ( 2 * e + 1 ) )
            { err = strf( "parameter line %ld: back pointer '%s' (want %zu)", i + 1, P[i].substr( 64, 8 ).c_str(), 2 * e + 1 ); return false; }
            rec += P[i].substr( 0, 64 );
        }
        size_t p = 0;
        std::vector<Val> v;
        std::string te;
        if( !tokenize( rec, p, out.g.pd, out.g.rd, v, te ) ) { err = strf( "entity %zu (type %d): %s", e, m.type, te.c_str() ); return false; }
        long t;
        if( v.empty() || v[0].k != 'n' || !parseInt( v[0].s, t ) || t != m.type ) { err = strf( "entity %zu: parameter record type mismatch", e ); return false; }
        v.erase( v.begin() );
        m.comment = rec.substr( p );
        while( !m.comment.empty() && m.comment.back() == ' ' ) m.comment.pop_back();
        long n = Schema( m.type, v );
        if( n < 0 && m.type >= 100 ) { err = strf( "entity %zu: parameters do not fit type %d: %s", e, m.type, rec.substr( 0, 120 ).c_str() ); return false; }
        std::vector<Val> ex;
        if( n >= 0 ) { ex.assign( v.begin() + n, v.end() ); v.resize( n ); }
        m.p = v;
        if( !ex.empty() )
        {
            Walk w( ex );
            long na = w.I();
            for( long i = 0; i < na && w.ok; ++i ) { w.P(); if( w.ok ) m.exA.push_back( ex[w.n - 1].i ); }
            if( w.ok && w.n < ex.size() )
            {
                long nb = w.I();
                for( long i = 0; i < nb && w.ok; ++i ) { w.P(); if( w.ok ) m.exB.push_back( ex[w.n - 1].i ); }
            }
            if( !w.ok || w.n != ex.size() ) { err = strf( "entity %zu (type %d): malformed optional pointers", e, m.type ); return false; }
        }
        out.ents.push_back( m );
    }
    for( size_t i = 0; i < P.size(); ++i )
        if( !used[i] ) { err = strf( "parameter line %zu belongs to no entity", i + 1 ); return false; }
    for( size_t e = 0; e < nE; ++e )
    {
        auto chk = [&]( long i ) { return i >= -1 && i < (long) nE; };
        EntM& m = out.ents[e];
        bool ok = chk( m.xform ) && chk( m.colorEnt );
        if( m.xform >= 0 && ok && out.ents[m.xform].type != 124 ) { err = strf( "entity %zu: transform pointer to type %d", e, out.ents[m.xform].type ); return false; }
        if( m.colorEnt >= 0 && ok && out.ents[m.colorEnt].type != 314 ) { err = strf( "entity %zu: colour pointer to type %d", e, out.ents[m.colorEnt].type ); return false; }
        for( auto& v : m.p ) if( v.k == 'p' ) ok = ok && chk( v.i );
        for( int i : m.exA ) ok = ok && chk( i );
        for( int i : m.exB ) ok = ok && chk( i );
        if( !ok ) { err = strf( "entity %zu (type %d): pointer to a nonexistent entity", e, m.type ); return false; }
    }
    return true;
}

// ------------------------------------------------------------- text writer
static std::string numText( double v, const Style& st, Rng& r )
{
    int n = st.num == 4 ? (int) r.below( 4 ) : st.num;
    std::string s = fmtReal( v );
    if( n == 1 || n == 2 )
    {
        char b[64];
        auto q = std::to_chars( b, b + 64, v, std::chars_format::scientific );
        s.assign( b, q.ptr );
        size_t e = s.find( 'e' );
        if( e != std::string::npos )
        {
            if( s.find( '.' ) == std::string::npos ) { s.insert( e, "." ); ++e; }
            s[e] = n == 1 ? 'E' : 'D';
        }
    }
    else if( n == 3 )
    {
        if( s.size() > 2 && s.compare( s.size() - 2, 2, ".0" ) == 0 ) s.pop_back();
        if( v > 0 ) s = "+" + s;
    }
    return s;
}

static std::string hstr( const std::string& s ) { return s.empty() ? "" : std::to_string( s.size() ) + "H" + s; }

// lays parameters (each already followed by its delimiter) out in lines of `w` columns
static std::vector<std::string> layout( const std::vector<std::string>& toks, const std::vector<bool>& isStr, int w, const Style& st, Rng& r )
{
    std::vector<std::string> out( 1 );
    for( size_t i = 0; i < toks.size(); ++i )
    {
        const std::string& t = toks[i];
        bool brk = i && ( st.wrap == 1 || ( st.wrap == 2 && r.chance( 1, 4 ) ) );
        if( brk && !out.back().empty() ) out.push_back( "" );
        if( isStr[i] && ( (int) t.size() > w || st.splitStr ) )
        {
            // the character count and the H stay together, the text may wrap
            size_t h = t.find( 'H' ) + 1;
            if( h == 0 ) h = 0;
            if( (int) ( out.back().size() + h ) > w ) out.push_back( "" );
            size_t p = 0;
            while( p < t.size() )
            {
                size_t room = w - out.back().size();
                if( room == 0 || ( p == 0 && room < h ) ) { out.push_back( "" ); continue; }
                out.back() += t.substr( p, room );
                p += room;
            }
        }
        else
        {
            if( (int) ( out.back().size() + t.size() ) > w ) out.push_back( "" );
            out.back() += t;
        }
    }
    return out;
}

static std::string lj( const std::string& s, size_t w ) { std::string t = s; t.resize( w, ' ' ); return t; }
static std::string rj( const std::string& s, size_t w ) { return s.size() >= w ? s : std::string( w - s.size(), ' ' ) + s; }
static std::string rj( long v, size_t w ) { return rj( std::to_string( v ), w ); }

std::string WriteText( const DocM& d, const Style& st )
{
    Rng r( st.r );
    std::string out;
    std::string nl = st.crlf ? "\r\n" : "\n";
    int nS = 0, nG = 0;
    for( auto& s : d.start ) out += lj( s, 72 ) + "S" + rj( ++nS, 7 ) + nl;
    if( !nS ) out += lj( "", 72 ) + "S" + rj( ++nS, 7 ) + nl;
    const GlobM& g = d.g;
    std::string pd( 1, g.pd ), rd( 1, g.rd );
    {
        std::vector<std::string> t;
        std::vector<bool> str;
        auto S = [&]( const std::string& s ) { t.push_back( hstr( s ) ); str.push_back( !s.empty() ); };
        auto I = [&]( long v ) { t.push_back( std::to_string( v ) ); str.push_back( false ); };
        auto R = [&]( double v ) { t.push_back( numText( v, st, r ) ); str.push_back( false ); };
        if( g.pd == ',' && st.omitDef ) { t.push_back( "" ); str.push_back( false ); } else S( pd );
        if( g.rd == ';' && st.omitDef ) { t.push_back( "" ); str.push_back( false ); } else S( rd );
        S( g.sender ); S( g.file ); S( g.system ); S( g.preproc );
        I( g.intBits ); I( g.maxPowS ); I( g.sigS ); I( g.maxPowD ); I( g.sigD ); S( g.receiver );
        R( g.scale ); I( g.units ); S( g.unitName ); I( g.gradations ); R( g.maxWidth ); S( g.date ); R( g.minRes ); R( g.maxCoord );
        S( g.author ); S( g.org ); I( g.version ); I( g.draft ); 
        if( !g.shortForm ) { S( g.modDate ); S( g.proto ); }
        for( size_t i = 0; i < t.size(); ++i ) t[i] += i + 1 == t.size() ? rd : pd;
        // the delimiter definitions and the first string start the first line
        t[0] += t[1] + t[2].substr( 0, t[2].find( 'H' ) + 1 );
        t[2].erase( 0, t[2].find( 'H' ) + 1 );
        t[0] += t[2];
        t.erase( t.begin() + 1, t.begin() + 3 );
        str.erase( str.begin(), str.begin() + 2 );
        Style gs = st;
        for( auto& l : layout( t, str, 72, gs, r ) ) out += lj( l, 72 ) + "G" + rj( ++nG, 7 ) + nl;
    }
    // unsupported entities are mixed in between; indices are remapped
    size_t n = d.ents.size();
    std::vector<int> slot;          // file position -> entity index or -1 (unsupported filler)
    for( size_t i = 0; i < n; ++i ) slot.push_back( i );
    for( int i = 0; i < st.extra; ++i ) slot.insert( slot.begin() + r.below( slot.size() + 1 ), -1 - (int) r.below( 5 ) );
    std::vector<long> de( n, 0 );
    for( size_t f = 0; f < slot.size(); ++f ) if( slot[f] >= 0 ) de[slot[f]] = 2 * f + 1;
    std::string D, P;
    int nD = 0, nP = 0;
    for( size_t f = 0; f < slot.size(); ++f )
    {
        EntM filler;
        const EntM* e;
        std::vector<std::string> t;
        std::vector<bool> str;
        if( slot[f] < 0 )
        {
            static const int ft[5] = { 116, 106, 212, 410, 123 };
            filler.type = ft[-1 - slot[f]];
            filler.form = filler.type == 106 ? 1 : 0;
            e = &filler;
            t.push_back( std::to_string( filler.type ) ); str.push_back( false );
            if( filler.type == 116 ) for( const char* q : { "1.0", "2.0", "3.0", "0" } ) { t.push_back( q ); str.push_back( false ); }
            else if( filler.type == 123 ) for( const char* q : { "0.0", "0.0", "1.0" } ) { t.push_back( q ); str.push_back( false ); }
            else if( filler.type == 212 ) for( const char* q : { "1", "5", "1.0", "1.0", "1", "1.57", "0.0", "0", "0", "0.0", "0.0", "0.0", "5Ha,b;c" } ) { t.push_back( q ); str.push_back( q[1] == 'H' ); }
            else if( filler.type == 106 ) for( const char* q : { "1", "2", "0.0", "1.0", "1.0", "2.0", "2.0" } ) { t.push_back( q ); str.push_back( false ); }
            else for( const char* q : { "1", "1.0" } ) { t.push_back( q ); str.push_back( false ); }
        }
        else
        {
            e = &d.ents[slot[f]];
            t.push_back( std::to_string( e->type ) ); str.push_back( false );
            for( auto& v : e->p )
            {
                std::string s;
                bool isS = false;
                switch( v.k )
                {
                    case 'i': s = std::to_string( v.i ); break;
                    case 'r': s = numText( v.r, st, r ); break;
                    case 's': s = hstr( v.s ); isS = !v.s.empty(); break;
                    case 'p': s = v.i < 0 ? "0" : std::to_string( e->type == 180 ? -de[v.i] : de[v.i] ); break;
                    default: break;
                }
                if( st.padNum && !isS && !s.empty() && r.chance( 1, 3 ) ) s = std::string( 1 + r.below( 3 ), ' ' ) + s;
                t.push_back( s );
                str.push_back( isS );
            }
            // trailing defaults that the record may leave out
            if( st.omitDef && e->exA.empty() && e->exB.empty() )
            {
                if( e->type == 408 && e->p[4].r == 1.0 ) t.back() = "";
                if( e->type == 164 && e->p[2].r == 0 && e->p[3].r == 0 && e->p[4].r == 1.0 ) t[3] = t[4] = t[5] = "";
                if( e->type == 154 && e->p[5].r == 0 && e->p[6].r == 0 && e->p[7].r == 1.0 ) { t[6] = t[7] = t[8] = ""; }
            }
            if( !e->exA.empty() || !e->exB.empty() )
            {
                auto push = [&]( long v ) { t.push_back( std::to_string( v ) ); str.push_back( false ); };
                push( e->exA.size() );
                for( int i : e->exA ) push( de[i] );
                if( !e->exB.empty() )
                {
                    push( e->exB.size() );
                    for( int i : e->exB ) push( de[i] );
                }
            }
        }
        for( size_t i = 0; i < t.size(); ++i ) t[i] += i + 1 == t.size() ? rd : pd;
        auto lines = layout( t, str, 64, st, r );
        if( slot[f] >= 0 )
            for( auto& c : e->comments )
            {
                // comments follow the record delimiter on lines of their own
                for( size_t q = 0; q < c.size(); q += 64 ) lines.push_back( c.substr( q, 64 ) );
            }
        int p0 = nP + 1;
        for( auto& l : lines ) P += lj( l, 64 ) + " " + rj( 2 * f + 1, 7 ) + "P" + rj( ++nP, 7 ) + nl;
        char stt[16];
        snprintf( stt, sizeof stt, "%02d%02d%02d%02d", e->blank, e->sub, e->use, e->hier );
        bool bl = st.omitDef;
        auto z = [&]( long v ) { return v == 0 && bl ? std::string( 8, ' ' ) : rj( v, 8 ); };
        D += rj( e->type, 8 ) + rj( p0, 8 ) + z( e->structure ) + z( e->lineFont ) + z( e->level ) + z( e->view )
             + z( e->xform >= 0 ? de[e->xform] : 0 ) + z( e->labelDisp ) + stt + "D" + rj( ++nD, 7 ) + nl;
        long col = e->colorEnt >= 0 ? -de[e->colorEnt] : e->color;
        D += rj( e->type, 8 ) + z( e->weight ) + z( col ) + rj( (long) lines.size(), 8 ) + rj( e->form, 8 ) + std::string( 16, ' ' )
             + rj( e->label, 8 ) + ( e->subscript ? rj( e->subscript, 8 ) : std::string( 8, ' ' ) ) + "D" + rj( ++nD, 7 ) + nl;
    }
    out += D + P;
    out += "S" + rj( nS, 7 ) + "G" + rj( nG, 7 ) + "D" + rj( nD, 7 ) + "P" + rj( nP, 7 ) + lj( "", 40 ) + "T" + rj( 1, 7 ) + nl;
    return out;
}

// ------------------------------------------------------------- comparison
std::string EntStr( const EntM& e )
{
    std::string s = strf( "type=%d form=%d lf=%ld lvl=%ld view=%ld x=%d lab=%ld st=%d/%d/%d/%d w=%d c=%d ce=%d '%s' sub=%ld [", e.type, e.form, e.lineFont,
                          e.level, e.view, e.xform, e.labelDisp, e.blank, e.sub, e.use, e.hier, e.weight, e.color, e.colorEnt, e.label.c_str(), e.subscript );
    int n = 0;
    for( auto& v : e.p )
    {
        if( ++n > 60 ) { s += "..."; break; }
        switch( v.k )
        {
            case 'i': s += strf( "%ld,", v.i ); break;
            case 'r': s += fmtReal( v.r ) + ","; break;
            case 's': s += "'" + v.s + "',"; break;
            case 'p': s += strf( "@%ld,", v.i ); break;
            default: s += "-,";
        }
    }
    s += "]";
    if( !e.exA.empty() || !e.exB.empty() )
    {
        s += " ex(";
        for( int i : e.exA ) s += strf( "@%d,", i );
        s += "|";
        for( int i : e.exB ) s += strf( "@%d,", i );
        s += ")";
    }
    return s;
}

// precision the format promises for a real parameter
double g_relTol = 2e-15;
static double tolFor( const EntM& e, size_t i, double want, double minRes )
{
    double abs = 0.01 * minRes;
    if( fabs( want ) < 2e-8 && abs < 2e-8 ) abs = 2e-8;     // the library writes magnitudes below 1e-8 as zero
    if( e.type == 314 ) abs = 5e-4;     // percentages
    // pure numbers: angles, direction cosines, rotations, scale factors, conic coefficients
    if( e.type == 104 || ( e.type == 120 && i >= 2 ) || ( e.type == 124 && i % 4 < 3 ) || ( e.type == 154 && i > 4 ) || ( e.type == 164 && i > 1 ) || ( e.type == 408 && i == 4 ) )
        abs = 1.5e-8;
    if( e.type == 126 || e.type == 128 )
    {
        abs = 1.5e-8;
        long k = e.p[0].i, m = e.p[1].i;
        size_t w0, w1;
        if( e.type == 126 ) { w0 = 6 + 2 + k + m; w1 = w0 + k + 1; }
        else { long k2 = e.p[1].i, m1 = e.p[2].i, m2 = e.p[3].i; w0 = 9 + ( 2 + k + m1 ) + ( 2 + k2 + m2 ); w1 = w0 + ( k + 1 ) * ( k2 + 1 ); }
        if( i >= w0 && i < w1 ) abs = 1e-7;
    }
    return abs + g_relTol * fabs( want );
}

std::string DiffEnt( const EntM& a, const EntM& b, double minRes, int parts )
{
    if( a.type != b.type ) return strf( "type %d became %d", a.type, b.type );
    if( a.form != b.form ) return strf( "form %d became %d", a.form, b.form );
#define F( x, n ) if( a.x != b.x ) return strf( n " %ld became %ld", (long) a.x, (long) b.x )
    F( structure, "structure" ); F( lineFont, "line font" ); F( level, "level" ); F( view, "view" ); F( labelDisp, "label display" );
    F( xform, "transform" ); F( color, "colour" ); F( colorEnt, "colour definition" );
    F( blank, "blank status" ); F( sub, "subordinate status" ); F( use, "use status" ); F( hier, "hierarchy status" );
    F( weight, "line weight" ); F( subscript, "subscript" );
#undef F
    if( a.label != b.label ) return "label '" + a.label + "' became '" + b.label + "'";
    if( a.p.size() != b.p.size() ) return strf( "%zu parameters became %zu", a.p.size(), b.p.size() );
    for( size_t i = 0; i < a.p.size(); ++i )
    {
        const Val &x = a.p[i], &y = b.p[i];
        if( x.k != y.k ) return strf( "parameter %zu kind %c became %c", i + 1, x.k, y.k );
        if( x.k == 'i' || x.k == 'p' ) { if( x.i != y.i ) return strf( "parameter %zu: %ld became %ld", i + 1, x.i, y.i ); }
        else if( x.k == 's' ) { if( x.s != y.s ) return strf( "parameter %zu: '%s' became '%s'", i + 1, x.s.c_str(), y.s.c_str() ); }
        else if( x.k == 'r' )
        {
            // the normal of a curve which is not planar has no meaning
            if( a.type == 126 && a.p[2].i == 0 && i + 3 >= a.p.size() ) continue;
            double t = tolFor( a, i, x.r, minRes );
            if( !( fabs( x.r - y.r ) <= t ) ) return strf( "parameter %zu: %s became %s (tolerance %g)", i + 1, fmtReal( x.r ).c_str(), fmtReal( y.r ).c_str(), t );
        }
    }
    if( a.exA != b.exA || a.exB != b.exB ) return "optional pointers differ";
    if( ( parts & CMP_COMMENT ) )
    {
        std::string wa;
        for( auto& c : a.comments ) wa += c;
        std::string ga = b.comment;
        auto strip = []( std::string s ) { std::string o; for( char c : s ) if( c != ' ' ) o += c; return o; };
        if( strip( wa ) != strip( ga ) ) return "comment '" + wa + "' became '" + ga + "'";
    }
    return "";
}

std::string Diff( const DocM& w, const DocM& g, int parts, double minRes )
{
    if( parts & CMP_ENTS )
    {
        size_t n = std::min( w.ents.size(), g.ents.size() );
        for( size_t i = 0; i < n; ++i )
        {
            std::string s = DiffEnt( w.ents[i], g.ents[i], minRes, parts );
            if( !s.empty() ) return strf( "entity %zu (type %d): %s\n    want %s\n    got  %s", i, w.ents[i].type, s.c_str(), EntStr( w.ents[i] ).c_str(), EntStr( g.ents[i] ).c_str() );
        }
        if( w.ents.size() != g.ents.size() ) return strf( "%zu entities became %zu", w.ents.size(), g.ents.size() );
    }
    if( parts & CMP_GLOB )
    {
        const GlobM &a = w.g, &b = g.g;
#define FS( x, n ) if( a.x != b.x ) return std::string( "global " n ": '" ) + a.x + "' became '" + b.x + "'"
#define FI( x, n ) if( a.x != b.x ) return strf( "global " n ": %ld became %ld", (long) a.x, (long) b.x )
#define FR( x, n ) if( fabs( a.x - b.x ) > 1e-15 + 1e-6 * fabs( a.x ) ) return strf( "global " n ": %g became %g", a.x, b.x )
        FI( pd, "parameter delimiter" ); FI( rd, "record delimiter" );
        FS( sender, "sender product" ); FS( file, "file name" ); FS( system, "native system" ); FS( preproc, "preprocessor" );
        FI( intBits, "integer bits" ); FI( maxPowS, "single power" ); FI( sigS, "single digits" ); FI( maxPowD, "double power" ); FI( sigD, "double digits" );
        FS( receiver, "receiver product" ); FR( scale, "model scale" ); FI( units, "units flag" ); FS( unitName, "units name" );
        FI( gradations, "line weight gradations" ); FR( maxWidth, "maximum line width" ); FS( date, "file date" );
        FR( minRes, "minimum resolution" ); FR( maxCoord, "maximum coordinate" ); FS( author, "author" ); FS( org, "organisation" );
        FI( version, "version" ); FI( draft, "drafting standard" ); FS( modDate, "model date" ); FS( proto, "application protocol" );
    }
    if( parts & CMP_START )
    {
        auto rt = []( std::string s ) { while( !s.empty() && s.back() == ' ' ) s.pop_back(); return s; };
        std::vector<std::string> a, b;
        for( auto& s : w.start ) a.push_back( rt( s ) );
        for( auto& s : g.start ) b.push_back( rt( s ) );
        while( !a.empty() && a.back().empty() ) a.pop_back();
        while( !b.empty() && b.back().empty() ) b.pop_back();
        if( a.size() != b.size() ) return strf( "start section: %zu lines became %zu", a.size(), b.size() );
        for( size_t i = 0; i < a.size(); ++i ) if( a[i] != b[i] ) return "start section: '" + a[i] + "' became '" + b[i] + "'";
    }
    return "";
}

// lengths are multiplied by f; the marked curves lie in the parameter space of a surface
void ScaleEnt( EntM& e, double f )
{
    auto S = [&]( size_t a, size_t b ) { for( size_t i = a; i < b && i < e.p.size(); ++i ) if( e.p[i].k == 'r' ) e.p[i].r *= f; };
    switch( e.type )
    {
        case 100: case 110: case 502: S( 0, e.p.size() ); break;
        case 104: S( 3, 5 ); S( 5, 6 ); S( 5, 6 ); S( 6, 11 ); break;
        case 122: S( 1, 4 ); break;
        case 124: S( 3, 4 ); S( 7, 8 ); S( 11, 12 ); break;
        case 126: { long k = e.p[0].i, m = e.p[1].i; size_t o = 6 + ( k + m + 2 ) + ( k + 1 ); S( o, o + 3 * ( k + 1 ) ); break; }
        case 128:
        {
            long a = e.p[0].i, b = e.p[1].i, c = e.p[2].i, d = e.p[3].i, n = ( a + 1 ) * ( b + 1 );
            size_t o = 9 + ( a + c + 2 ) + ( b + d + 2 ) + n;
            S( o, o + 3 * n );
            break;
        }
        case 154: S( 0, 5 ); break;
        case 164: S( 1, 2 ); break;
        case 408: S( 1, 4 ); break;
        default: break;
    }
}

std::vector<char> Parametric( const DocM& d )
{
    size_t n = d.ents.size();
    std::vector<char> q( n, 0 );
    auto mark = [&]( long i ) { if( i >= 0 && i < (long) n ) q[i] = 1; };
    for( auto& e : d.ents )
    {
        if( e.type == 142 ) mark( e.p[2].i );
        if( e.type == 508 )
        {
            size_t i = 1;
            for( long k = 0; k < e.p[0].i; ++k )
            {
                long np = e.p[i + 4].i;
                i += 5;
                for( long z = 0; z < np; ++z, i += 2 ) mark( e.p[i + 1].i );
            }
        }
    }
    for( size_t i = 0; i < n; ++i )
        if( q[i] && d.ents[i].type == 102 )
            for( auto& v : d.ents[i].p ) if( v.k == 'p' ) mark( v.i );
    return q;
}

void ScaleDoc( DocM& d, double f )
{
    auto q = Parametric( d );
    for( size_t i = 0; i < d.ents.size(); ++i ) if( !q[i] ) ScaleEnt( d.ents[i], f );
}
