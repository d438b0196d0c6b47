// Writes the static feature code of the harness specifications (see cgspecs.h).
#include <stdio.h>
#include <stdlib.h>
#include <iostream>
#include "cgspecs.h"
#include "core/codegen/feature_codegen.h"
int main(int, char** argv) {
  for (int i = 0; i < cg::NSPECS; ++i) {
    jumanpp::core::spec::AnalysisSpec spec;
    {
      jumanpp::core::spec::dsl::ModelSpecBuilder b;
      cg::cgSpec(i, b);
      auto s = b.build(&spec);
      if (!s) {
        std::cerr << "spec " << i << ": " << s << "\n";
        return 1;
      }
    }
    auto n = std::to_string(i);
    jumanpp::core::features::codegen::FeatureCodegenConfig cfg{"cg" + n, "Cg" + n, argv[1]};
    auto s = jumanpp::core::features::codegen::StaticFeatureCodegen{cfg, spec}.generateAndWrite();
    if (!s) {
      std::cerr << "spec " << i << ": " << s << "\n";
      return 1;
    }
  }
  return 0;
}
