// Declarations standing in for the parser ANTLR generates.
#ifndef VP_BINFORMATPARSER_H_
#define VP_BINFORMATPARSER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::bin_format::generated {
class BinFormatParser {
 public:
  class Bit_field_specContext;
  class Bit_index_rangeContext;
  class Decoder_defContext;
  class Declaration_listContext;
  class Field_constraintContext;
  class Field_defContext;
  class Format_defContext;
  class Group_name_listContext;
  class Include_fileContext;
  class Instruction_group_defContext;
  class Instruction_defContext;
  class Namespace_declContext;
  class NumberContext;
  class OnceContext;
  class Overlay_defContext;
  class Top_levelContext;
};
}  // namespace mpact::sim::decoder::bin_format::generated
#endif
