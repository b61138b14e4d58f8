// Independent model of an IGES document: its own generator, its own text writer
// (a "different vendor's" exporter) and its own strict parser.  Nothing here
// uses code from the library under test.
#ifndef MODEL_H
#define MODEL_H
#include "sim.h"

struct Val
{
    char k = 'd';       // 'i' int, 'r' real, 's' string, 'p' entity pointer (index, -1 = null), 'd' defaulted
    long i = 0;
    double r = 0;
    std::string s;
    static Val I( long v ) { Val x; x.k = 'i'; x.i = v; return x; }
    static Val R( double v ) { Val x; x.k = 'r'; x.r = v; return x; }
    static Val S( const std::string& v ) { Val x; x.k = 's'; x.s = v; return x; }
    static Val P( long v ) { Val x; x.k = 'p'; x.i = v; return x; }
};

struct EntM
{
    int type = 0, form = 0;
    long structure = 0, lineFont = 0, level = 0, view = 0, labelDisp = 0;   // raw directory values
    int xform = -1;             // entity index of the transform or -1
    int color = 0;              // colour number
    int colorEnt = -1;          // entity index of a colour definition or -1
    int blank = 0, sub = 0, use = 0, hier = 0;
    int weight = 0;
    std::string label;
    long subscript = 0;
    std::vector<Val> p;
    std::vector<int> exA, exB;  // optional pointer lists
    std::string comment;        // text after the record delimiter (parser), or to be attached (generator)
    std::vector<std::string> comments;
};

struct GlobM
{
    char pd = ',', rd = ';';
    std::string sender, file, system, preproc;
    long intBits = 32, maxPowS = 38, sigS = 6, maxPowD = 308, sigD = 15;
    std::string receiver;
    double scale = 1.0;
    long units = 2;
    std::string unitName = "MM";
    long gradations = 1;
    double maxWidth = 1.0;
    std::string date;
    double minRes = 1e-5, maxCoord = 0;
    std::string author, org;
    long version = 11, draft = 0;
    std::string modDate, proto;
    bool shortForm = false;     // writer only: stop after the model date / omit optional trailing fields
};

struct DocM
{
    GlobM g;
    std::vector<std::string> start;
    std::vector<EntM> ents;
};

// text layout chosen by another vendor
struct Style
{
    int wrap = 0;       // 0 pack lines, 1 one parameter per line, 2 random breaks
    int num = 0;        // 0 shortest, 1 scientific E, 2 scientific D, 3 plus signs / trailing point, 4 mixed
    bool padNum = false;    // leading blanks before numbers
    bool omitDef = false;   // leave out parameters equal to their default
    bool crlf = false;
    bool splitStr = false;  // break strings across lines
    int extra = 0;          // number of unsupported entities to mix in
    uint64_t r = 1;
};

std::string WriteText( const DocM& d, const Style& st );

struct ParseInfo { int nS = 0, nG = 0, nD = 0, nP = 0; };
// strict parse; every structural rule of the fixed 80-column format is checked
bool ParseText( const std::string& bytes, DocM& out, std::string& err, ParseInfo* pi = nullptr );

struct Tol { double abs = 1e-7; double rel = 2e-14; };
// empty string when equal; `what` selects parts
enum { CMP_ENTS = 1, CMP_GLOB = 2, CMP_START = 4, CMP_COMMENT = 8, CMP_FORMALPREC = 16 };
std::string Diff( const DocM& want, const DocM& got, int parts, double minRes );
extern double g_relTol;         // relative part of the tolerance; raised where a comparison involves arithmetic
void ScaleEnt( EntM& e, double f );
void ScaleDoc( DocM& d, double f );                     // change of the unit of length
std::vector<char> Parametric( const DocM& d );          // curves in the parameter space of a surface
std::string DiffEnt( const EntM& a, const EntM& b, double minRes, int parts );

// random document; `kinds` empty = all kinds
struct GenOpt
{
    int maxRoots = 6;
    bool api = false;           // only what can be built through the programming interface
    bool comments = true;
    bool brep = true;
    bool shells = false;        // without brep: shells of their own in place of solids
    bool de = true;             // vary directory attributes
    bool shared = true;         // share children between parents
    bool names = true;          // attach name properties
    bool deep = true;           // composite curves as children
    bool subfig = true;         // subfigure definitions and instances
    bool paramArc = true;       // arcs as curves in the parameter space of a surface
    std::vector<int> roots;     // allowed root kinds
};
DocM GenDoc( Rng& r, const GenOpt& o );
GlobM GenGlob( Rng& r, bool full );
std::string fmtReal( double v );
bool parseReal( const std::string& s, double& v );
std::string EntStr( const EntM& e );
#endif
