// Declaration standing in for the lexer ANTLR generates.
#ifndef VP_BINFORMATLEXER_H_
#define VP_BINFORMATLEXER_H_
namespace mpact::sim::decoder::bin_format::generated { class BinFormatLexer; }
#endif
