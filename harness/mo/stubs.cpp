// Bufferisation is written for another LLVM; nothing checked here uses it.
#include "mlir/IR/DialectRegistry.h"
namespace mlir::bmodelica {
void registerBufferizableOpInterfaceExternalModels(mlir::DialectRegistry &) {}
} // namespace mlir::bmodelica
// This LLVM's data layout interface has one more method.
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
namespace mlir::bmodelica {
#define A(T) uint64_t T::getPreferredAlignment(const mlir::DataLayout &, mlir::DataLayoutEntryListRef) const { return 8; }
A(BooleanType) A(IntegerType) A(RealType)
} // namespace mlir::bmodelica
