// Declarations standing in for the ANTLR 4 runtime, which is not installed here: just enough for the sources under contract to compile.
// Nothing under contract parses text.
#ifndef VP_ANTLR4_RUNTIME_H_
#define VP_ANTLR4_RUNTIME_H_
#include <cstddef>
#include <exception>
#include <istream>
#include <string>
namespace antlrcpp { class BitSet; }
namespace antlr4 {
class Recognizer;
class Parser;
namespace dfa { class DFA; }
namespace atn { class ATNConfigSet; }
namespace tree { class TerminalNode; }
class Token {
 public:
  virtual ~Token() = default;
  virtual size_t getLine() const { return 0; }
  virtual size_t getCharPositionInLine() const { return 0; }
};
class ParserRuleContext {
 public:
  Token* start = nullptr;
  Token* stop = nullptr;
};
class BaseErrorListener {
 public:
  virtual ~BaseErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) {}
};
class ANTLRInputStream {
 public:
  template <typename T>
  void load(const T&, bool) {}
};
class CommonTokenStream {
 public:
  explicit CommonTokenStream(void*) {}
};
}  // namespace antlr4
// The installed Abseil is configured with a string_view of its own, while format.h and format.cc use std::string_view and
// absl::string_view interchangeably (the project's build makes them one type).  In that namespace both are made to name Abseil's.
#ifndef VP_PRELUDE_H_
#include "absl/strings/string_view.h"
namespace mpact::sim::decoder::bin_format {
namespace std {
using namespace ::std;
using ::absl::string_view;
}  // namespace std
}  // namespace mpact::sim::decoder::bin_format
#endif
#endif
