// The kinds (see kinds.h) in groups, one translation unit per GROUP so that the groups compile in parallel.
#if GROUP == 0
ENG_KIND(IntSep)
ENG_KIND(U8Sep)
ENG_KIND(I64Sep)
ENG_KIND(CharSep)
ENG_KIND(LDouble)
ENG_KIND(EnumSep)
ENG_KIND(OverSep)
ENG_KIND(TailSep)
ENG_KIND(ConstInt)
ENG_KIND(ArrSep)
#elif GROUP == 1
ENG_KIND(StrSep)
ENG_KIND(VecSep)
ENG_KIND(UPtrSep)
ENG_KIND(SPtrSep)
ENG_KIND(CusPair)
ENG_KIND(CusRes)
ENG_KIND(InpRes)
ENG_KIND(MemPtrSep)
#elif GROUP == 2
ENG_KIND(TrkSep)
ENG_KIND(TrkNXSep)
ENG_KIND(TrkMOSep)
ENG_KIND(TrkCOSep)
ENG_KIND(AggSep)
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemD)
#endif
ENG_KIND(MemI)
#elif GROUP == 3
ENG_KIND(Bool)
ENG_KIND(ConstBool)
ENG_KIND(Dbl)
ENG_KIND(ConstDbl)
ENG_KIND(Flt)
ENG_KIND(PtrInt)
ENG_KIND(PtrVoid)
ENG_KIND(PtrFn)
ENG_KIND(IntM1)
#elif GROUP == 4
ENG_KIND(IntMax)
ENG_KIND(U8x255)
ENG_KIND(I8x0)
ENG_KIND(CharX)
ENG_KIND(U64Max)
ENG_KIND(I64x42)
ENG_KIND(EnumMax)
ENG_KIND(BoolTrue)
ENG_KIND(PtrNull)
#elif GROUP == 5
ENG_KIND(ViaInt)
ENG_KIND(ViaDbl)
ENG_KIND(ViaFlt)
ENG_KIND(ViaTicks)
ENG_KIND(AipI16)
ENG_KIND(AipU16)
ENG_KIND(AipI32)
ENG_KIND(AipU32)
ENG_KIND(AipI64)
#elif GROUP == 6
ENG_KIND(AipU64)
#if !KD_NO_BITS
ENG_KIND(AipDbl)
#endif
ENG_KIND(AipChar)
#if !KD_NO_BITS
ENG_KIND(AipBool)
#endif
ENG_KIND(CusReg)
ENG_KIND(InpInt)
ENG_KIND(NestBool)
ENG_KIND(NestInt)
ENG_KIND(NestStd)
ENG_KIND(NestTrk)
#elif GROUP == 7
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemF)
#endif
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemB)
#endif
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemP)
#endif
ENG_KIND(MemC)
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemNX)
#endif
ENG_KIND(MemNXI)
ENG_KIND(MemViaI)
#elif GROUP == 8
ENG_KIND(MemViaD)
#if !KD_NO_BIT_MEMBERS
ENG_KIND(MemFirst)
#endif
ENG_KIND(MemLast)
ENG_KIND(MemFlagged)
ENG_KIND(CusAgg)
ENG_KIND(InpAgg)
#elif GROUP == 9
ENG_KIND(AipIL) // long: size differs between platforms, therefore not part of the portable groups
#elif GROUP == 10
ENG_KIND(WCharSep)
ENG_KIND(C16x)
ENG_KIND(C32Max)
ENG_KIND(ByteSep)
ENG_KIND(ByteX)
ENG_KIND(I16M1)
ENG_KIND(U16Max)
ENG_KIND(U32x0)
ENG_KIND(E16None)
#elif GROUP == 11
ENG_KIND(UnscopedSep)
ENG_KIND(EBoolSep)
ENG_KIND(NullPtr)
ENG_KIND(ConstPtr)
ENG_KIND(PtrPtr)
ENG_KIND(MemFnSep)
ENG_KIND(ViaPtr)
ENG_KIND(InpNan)
#elif GROUP == 12
ENG_KIND(PairSep)
ENG_KIND(TupSep)
ENG_KIND(VarSep)
ENG_KIND(CplxSep)
ENG_KIND(SvSep)
ENG_KIND(FunSep)
#elif GROUP == 13
ENG_KIND(Big64)
ENG_KIND(Triv3Sep)
ENG_KIND(Triv3A)
#if !KD_NO_BIT_MEMBERS
ENG_KIND(Triv3P)
ENG_KIND(Triv3F)
ENG_KIND(Triv3D)
#endif
ENG_KIND(Triv3ViaB)
ENG_KIND(BigNTag)
#elif GROUP == 14
ENG_KIND(PolySep)
ENG_KIND(FinalSep)
ENG_KIND(NothingSep)
ENG_KIND(UniSep)
ENG_KIND(Nest3)
ENG_KIND(NestM1)
ENG_KIND(NestStr)
#elif GROUP == 15
ENG_KIND(XNXSep)
ENG_KIND(XNXMem)
ENG_KIND(XNXInp)
ENG_KIND(XTDSep)
ENG_KIND(XTDMem)
ENG_KIND(XTDInp)
ENG_KIND(XTDTSep)
#elif GROUP == 16
ENG_KIND(XTDTMem)
ENG_KIND(XTDTInp)
ENG_KIND(XCpSep)
ENG_KIND(XCpMem)
ENG_KIND(XMcSep)
ENG_KIND(XMcInp)
ENG_KIND(XMaSep)
#elif GROUP == 17
ENG_KIND(XMaMem)
ENG_KIND(XValSep)
ENG_KIND(XValInp)
ENG_KIND(XSwSep)
ENG_KIND(XBigSep)
ENG_KIND(XBigMem)
ENG_KIND(XBigNXMem)
#elif GROUP == 18
ENG_KIND(XBigNXInp)
ENG_KIND(XPolySep)
ENG_KIND(XPolyNXSep)
ENG_KIND(XNoSwSep)
ENG_KIND(XNoSwMem)
ENG_KIND(XMcValSep)
ENG_KIND(XMcValInp)
#endif
