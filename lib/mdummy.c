// Debug-information and target calls of the LLVM-C API: accepted and ignored.
static long md[4];
void *LLVMAddAttributeAtIndex() { return md; }
void *LLVMAddNamedMetadataOperand() { return md; }
void *LLVMCreateDIBuilder() { return md; }
void *LLVMCreateEnumAttribute() { return md; }
void *LLVMCreateTargetDataLayout() { return md; }
void *LLVMDIBuilderCreateArrayType() { return md; }
void *LLVMDIBuilderCreateArtificialType() { return md; }
void *LLVMDIBuilderCreateBitFieldMemberType() { return md; }
void *LLVMDIBuilderCreateClassType() { return md; }
void *LLVMDIBuilderCreateCompileUnit() { return md; }
void *LLVMDIBuilderCreateConstantValueExpression() { return md; }
void *LLVMDIBuilderCreateEnumerationType() { return md; }
void *LLVMDIBuilderCreateEnumerator() { return md; }
void *LLVMDIBuilderCreateExpression() { return md; }
void *LLVMDIBuilderCreateFile() { return md; }
void *LLVMDIBuilderCreateForwardDecl() { return md; }
void *LLVMDIBuilderCreateImportedDeclaration() { return md; }
void *LLVMDIBuilderCreateImportedModuleFromAlias() { return md; }
void *LLVMDIBuilderCreateImportedModuleFromModule() { return md; }
void *LLVMDIBuilderCreateImportedModuleFromNamespace() { return md; }
void *LLVMDIBuilderCreateInheritance() { return md; }
void *LLVMDIBuilderCreateLexicalBlockFile() { return md; }
void *LLVMDIBuilderCreateMacro() { return md; }
void *LLVMDIBuilderCreateMemberPointerType() { return md; }
void *LLVMDIBuilderCreateMemberType() { return md; }
void *LLVMDIBuilderCreateModule() { return md; }
void *LLVMDIBuilderCreateNameSpace() { return md; }
void *LLVMDIBuilderCreateNullPtrType() { return md; }
void *LLVMDIBuilderCreateObjCIVar() { return md; }
void *LLVMDIBuilderCreateObjCProperty() { return md; }
void *LLVMDIBuilderCreateObjectPointerType() { return md; }
void *LLVMDIBuilderCreateQualifiedType() { return md; }
void *LLVMDIBuilderCreateReferenceType() { return md; }
void *LLVMDIBuilderCreateReplaceableCompositeType() { return md; }
void *LLVMDIBuilderCreateStaticMemberType() { return md; }
void *LLVMDIBuilderCreateStructType() { return md; }
void *LLVMDIBuilderCreateSubroutineType() { return md; }
void *LLVMDIBuilderCreateTempGlobalVariableFwdDecl() { return md; }
void *LLVMDIBuilderCreateTempMacroFile() { return md; }
void *LLVMDIBuilderCreateTypedef() { return md; }
void *LLVMDIBuilderCreateUnionType() { return md; }
void *LLVMDIBuilderCreateUnspecifiedType() { return md; }
void *LLVMDIBuilderCreateVectorType() { return md; }
void *LLVMDIBuilderFinalize() { return md; }
void *LLVMDIBuilderFinalizeSubprogram() { return md; }
void *LLVMDIBuilderGetOrCreateArray() { return md; }
void *LLVMDIBuilderGetOrCreateSubrange() { return md; }
void *LLVMDIBuilderGetOrCreateTypeArray() { return md; }
void *LLVMDIBuilderInsertDbgValueRecordAtEnd() { return md; }
void *LLVMDIBuilderInsertDbgValueRecordBefore() { return md; }
void *LLVMDIBuilderInsertDeclareRecordBefore() { return md; }
void *LLVMDebugMetadataVersion() { return md; }
void *LLVMDisposeDIBuilder() { return md; }
void *LLVMDisposeMemoryBuffer() { return md; }
void *LLVMGetEnumAttributeKindForName() { return md; }
void *LLVMMDNodeInContext2() { return md; }
void *LLVMMDStringInContext2() { return md; }
void *LLVMMetadataAsValue() { return md; }
void *LLVMSetAlignment() { return md; }
void *LLVMSetCurrentDebugLocation() { return md; }
void *LLVMSetCurrentDebugLocation2() { return md; }
void *LLVMSetDataLayout() { return md; }
void *LLVMSetExternallyInitialized() { return md; }
void *LLVMSetFunctionCallConv() { return md; }
void *LLVMSetInstructionCallConv() { return md; }
void *LLVMSetModuleDataLayout() { return md; }
void *LLVMSetSection() { return md; }
void *LLVMSetTarget() { return md; }
void *LLVMSetVisibility() { return md; }
void *LLVMShutdown() { return md; }
void *LLVMValueAsMetadata() { return md; }
void LLVMInitializeAArch64Target() {}
void LLVMInitializeAMDGPUTarget() {}
void LLVMInitializeARMTarget() {}
void LLVMInitializeAVRTarget() {}
void LLVMInitializeBPFTarget() {}
void LLVMInitializeHexagonTarget() {}
void LLVMInitializeLanaiTarget() {}
void LLVMInitializeLoongArchTarget() {}
void LLVMInitializeMipsTarget() {}
void LLVMInitializeMSP430Target() {}
void LLVMInitializeNVPTXTarget() {}
void LLVMInitializePowerPCTarget() {}
void LLVMInitializeRISCVTarget() {}
void LLVMInitializeSparcTarget() {}
void LLVMInitializeSystemZTarget() {}
void LLVMInitializeVETarget() {}
void LLVMInitializeWebAssemblyTarget() {}
void LLVMInitializeX86Target() {}
void LLVMInitializeXCoreTarget() {}
void LLVMInitializeM68kTarget() {}
void LLVMInitializeXtensaTarget() {}
void LLVMInitializeAArch64TargetInfo() {}
void LLVMInitializeAMDGPUTargetInfo() {}
void LLVMInitializeARMTargetInfo() {}
void LLVMInitializeAVRTargetInfo() {}
void LLVMInitializeBPFTargetInfo() {}
void LLVMInitializeHexagonTargetInfo() {}
void LLVMInitializeLanaiTargetInfo() {}
void LLVMInitializeLoongArchTargetInfo() {}
void LLVMInitializeMipsTargetInfo() {}
void LLVMInitializeMSP430TargetInfo() {}
void LLVMInitializeNVPTXTargetInfo() {}
void LLVMInitializePowerPCTargetInfo() {}
void LLVMInitializeRISCVTargetInfo() {}
void LLVMInitializeSparcTargetInfo() {}
void LLVMInitializeSystemZTargetInfo() {}
void LLVMInitializeVETargetInfo() {}
void LLVMInitializeWebAssemblyTargetInfo() {}
void LLVMInitializeX86TargetInfo() {}
void LLVMInitializeXCoreTargetInfo() {}
void LLVMInitializeM68kTargetInfo() {}
void LLVMInitializeXtensaTargetInfo() {}
void LLVMInitializeAArch64TargetMC() {}
void LLVMInitializeAMDGPUTargetMC() {}
void LLVMInitializeARMTargetMC() {}
void LLVMInitializeAVRTargetMC() {}
void LLVMInitializeBPFTargetMC() {}
void LLVMInitializeHexagonTargetMC() {}
void LLVMInitializeLanaiTargetMC() {}
void LLVMInitializeLoongArchTargetMC() {}
void LLVMInitializeMipsTargetMC() {}
void LLVMInitializeMSP430TargetMC() {}
void LLVMInitializeNVPTXTargetMC() {}
void LLVMInitializePowerPCTargetMC() {}
void LLVMInitializeRISCVTargetMC() {}
void LLVMInitializeSparcTargetMC() {}
void LLVMInitializeSystemZTargetMC() {}
void LLVMInitializeVETargetMC() {}
void LLVMInitializeWebAssemblyTargetMC() {}
void LLVMInitializeX86TargetMC() {}
void LLVMInitializeXCoreTargetMC() {}
void LLVMInitializeM68kTargetMC() {}
void LLVMInitializeXtensaTargetMC() {}
void LLVMInitializeAArch64AsmPrinter() {}
void LLVMInitializeAMDGPUAsmPrinter() {}
void LLVMInitializeARMAsmPrinter() {}
void LLVMInitializeAVRAsmPrinter() {}
void LLVMInitializeBPFAsmPrinter() {}
void LLVMInitializeHexagonAsmPrinter() {}
void LLVMInitializeLanaiAsmPrinter() {}
void LLVMInitializeLoongArchAsmPrinter() {}
void LLVMInitializeMipsAsmPrinter() {}
void LLVMInitializeMSP430AsmPrinter() {}
void LLVMInitializeNVPTXAsmPrinter() {}
void LLVMInitializePowerPCAsmPrinter() {}
void LLVMInitializeRISCVAsmPrinter() {}
void LLVMInitializeSparcAsmPrinter() {}
void LLVMInitializeSystemZAsmPrinter() {}
void LLVMInitializeVEAsmPrinter() {}
void LLVMInitializeWebAssemblyAsmPrinter() {}
void LLVMInitializeX86AsmPrinter() {}
void LLVMInitializeXCoreAsmPrinter() {}
void LLVMInitializeM68kAsmPrinter() {}
void LLVMInitializeXtensaAsmPrinter() {}
void LLVMInitializeAArch64AsmParser() {}
void LLVMInitializeAMDGPUAsmParser() {}
void LLVMInitializeARMAsmParser() {}
void LLVMInitializeAVRAsmParser() {}
void LLVMInitializeBPFAsmParser() {}
void LLVMInitializeHexagonAsmParser() {}
void LLVMInitializeLanaiAsmParser() {}
void LLVMInitializeLoongArchAsmParser() {}
void LLVMInitializeMipsAsmParser() {}
void LLVMInitializeMSP430AsmParser() {}
void LLVMInitializeNVPTXAsmParser() {}
void LLVMInitializePowerPCAsmParser() {}
void LLVMInitializeRISCVAsmParser() {}
void LLVMInitializeSparcAsmParser() {}
void LLVMInitializeSystemZAsmParser() {}
void LLVMInitializeVEAsmParser() {}
void LLVMInitializeWebAssemblyAsmParser() {}
void LLVMInitializeX86AsmParser() {}
void LLVMInitializeXCoreAsmParser() {}
void LLVMInitializeM68kAsmParser() {}
void LLVMInitializeXtensaAsmParser() {}
void LLVMInitializeAArch64Disassembler() {}
void LLVMInitializeAMDGPUDisassembler() {}
void LLVMInitializeARMDisassembler() {}
void LLVMInitializeAVRDisassembler() {}
void LLVMInitializeBPFDisassembler() {}
void LLVMInitializeHexagonDisassembler() {}
void LLVMInitializeLanaiDisassembler() {}
void LLVMInitializeLoongArchDisassembler() {}
void LLVMInitializeMipsDisassembler() {}
void LLVMInitializeMSP430Disassembler() {}
void LLVMInitializeNVPTXDisassembler() {}
void LLVMInitializePowerPCDisassembler() {}
void LLVMInitializeRISCVDisassembler() {}
void LLVMInitializeSparcDisassembler() {}
void LLVMInitializeSystemZDisassembler() {}
void LLVMInitializeVEDisassembler() {}
void LLVMInitializeWebAssemblyDisassembler() {}
void LLVMInitializeX86Disassembler() {}
void LLVMInitializeXCoreDisassembler() {}
void LLVMInitializeM68kDisassembler() {}
void LLVMInitializeXtensaDisassembler() {}
