/* The generated lexer/parser were made with ANTLR 4.12; the runtime here is 4.10. */
#ifndef VERIF_ANTLR_COMPAT_H
#define VERIF_ANTLR_COMPAT_H
#include <cstdlib>
#include <mutex>
#include <utility>
#include "antlr4-runtime.h"
namespace antlr4 {
namespace internal {
using OnceFlag = std::once_flag;
template <typename F, typename... A>
void call_once(OnceFlag& f, F&& fn, A&&... a)
{
	std::call_once(f, std::forward<F>(fn), std::forward<A>(a)...);
}
}
namespace atn {
/* With VF_SLL set, predictions use SLL mode.  An SLL parse that succeeds is the LL parse
 * (ANTLR documentation of PredictionMode::SLL); it is much cheaper because every prediction
 * lands in the DFA cache that the fork server warms up.
 */
class VfParserATNSimulator : public ParserATNSimulator {
public:
	template <typename... A>
	VfParserATNSimulator(A&&... a) : ParserATNSimulator(std::forward<A>(a)...)
	{
		if (std::getenv("VF_SLL")) {
			setPredictionMode(PredictionMode::SLL);
		}
	}
};
}
}
#define ParserATNSimulator VfParserATNSimulator
#endif
