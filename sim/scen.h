// Shared helpers of the scenarios.
#ifndef SCEN_H
#define SCEN_H
#include "sim.h"
#include <functional>
#include "model.h"
#include <core/iges.h>
#include <core/all_entities.h>

// documents named by a script: everything derives from the arguments of the op
//   seed   content            n      at most this many root entities
//   plain  1: no directory attributes, names or comments
//   style  layout seed (WriteText)
GenOpt OptFor( const Op& op );
DocM DocFor( const Op& op );
Style StyleFor( Rng& r );
std::string TextFor( const Op& op, DocM* m = nullptr );
// what a reader followed by a writer must keep: unreferenced dependents are dropped
DocM ExpectDoc( const DocM& in );
// builds the model through the programming interface; false if the library refuses something
bool BuildApi( IGES& doc, const DocM& m, std::vector<IGES_ENTITY*>* made, std::string& err );
bool ParseFile( const std::string& path, DocM& out, std::string& err );
// run one library call with the op's faults armed
struct Armed { explicit Armed( const Op& op ) { seam::arm( op ); } ~Armed() { seam::disarm(); } };
// Positions of faults may be relative to what the call will do: 0, -1, -2... count from
// its last system call of that class and PERMILLE+k is k thousandths of the way. `go` is the
// same call on a twin without hard faults; it is made only when there is something to resolve.
enum { PERMILLE = 1000000 };
Op Resolve( const Op& op, const std::function<void()>& go );
// short reads / interrupted calls that a correct program must absorb
void BenignRead( Rng& r, Op& op );
void BenignWrite( Rng& r, Op& op );
std::string FirstDiff( const std::string& a, const std::string& b );
inline void Nontrivial() { ++g_stats.nontrivial; }
#endif
