-------------------------------- MODULE Consts --------------------------------
(* The numbers the Mach-O format (mach-o/loader.h, nlist.h, reloc.h, x86_64/    *)
(* reloc.h, mach/machine.h) assigns to the constants the library names.         *)
(* Numbers are little-endian byte sequences of the field's width.               *)
EXTENDS Words, TLC
B4(n) == FromNat(n, 4)
Bit(k) == [i \in 1..4 |-> IF i = k \div 8 + 1 THEN 2^(k % 8) ELSE 0]

NUM == [
  Magic |-> [Magic64 |-> <<207, 250, 237, 254>>, Cigam64 |-> <<254, 237, 250, 207>>,
             Magic |-> <<206, 250, 237, 254>>, Cigam |-> <<254, 237, 250, 206>>,
             FatMagic |-> <<190, 186, 254, 202>>, FatCigam |-> <<202, 254, 186, 190>>],
  FileType |-> [Object |-> B4(1), Execute |-> B4(2), FVMLib |-> B4(3), Core |-> B4(4), Preload |-> B4(5),
                Dylib |-> B4(6), Dylinker |-> B4(7), Bundle |-> B4(8), Dsym |-> B4(10)],
  Flag |-> [NoUndefs |-> Bit(0), IncrLink |-> Bit(1), DyldLink |-> Bit(2), BindAtLoad |-> Bit(3),
            PreBound |-> Bit(4), SplitSegs |-> Bit(5), TwoLevel |-> Bit(7), ForceFlat |-> Bit(8),
            NoMultiDefs |-> Bit(9), NoFixPreBinding |-> Bit(10), PreBindable |-> Bit(11),
            AllModsBound |-> Bit(12), SubsectionsViaSymbols |-> Bit(13), Canonical |-> Bit(14),
            Pie |-> Bit(21), HasTlvDescriptors |-> Bit(23)],
  SectionType |-> [Regular |-> B4(0), Zerofill |-> B4(1), CstringLiterals |-> B4(2), FourByteLiterals |-> B4(3),
                   EightByteLiterals |-> B4(4), LiteralPointers |-> B4(5), Coalesced |-> B4(11)],
  SectionAttr |-> [PureInstructions |-> Bit(31), NoToc |-> Bit(30), StripStaticSyms |-> Bit(29),
                   LiveSupport |-> Bit(27), Debug |-> Bit(25), SomeInstructions |-> Bit(10),
                   ExtReloc |-> Bit(9), LocReloc |-> Bit(8)],
  NType |-> [Undf |-> <<0>>, Abs |-> <<2>>, Sect |-> <<14>>, Pbud |-> <<12>>, Indr |-> <<10>>],
  DebugSymbol |-> [Gsym |-> <<32>>],
  RelocLength |-> [Byte |-> B4(0), Word |-> B4(1), Long |-> B4(2), Quad |-> B4(3)],
  X86RelocType |-> [Vanilla |-> <<0>>, Pair |-> <<1>>, Sectdiff |-> <<2>>, PbLaPtr |-> <<3>>,
                    LocalSectdiff |-> <<4>>, Tlv |-> <<5>>],
  X86_64RelocType |-> [Unsigned |-> <<0>>, Signed |-> <<1>>, Branch |-> <<2>>, GotLoad |-> <<3>>, Got |-> <<4>>,
                       Subtractor |-> <<5>>, Signed1 |-> <<6>>, Signed2 |-> <<7>>, Signed4 |-> <<8>>, Tlv |-> <<9>>],
  Platform |-> [MacOS |-> B4(1), IOS |-> B4(2), TvOS |-> B4(3), WatchOS |-> B4(4), BridgeOS |-> B4(5),
                MacCatalyst |-> B4(6), IOSSimulator |-> B4(7), TvOSSimulator |-> B4(8),
                WatchOSSimulator |-> B4(9), Driverkit |-> B4(10)],
  Tool |-> [Clang |-> B4(1), Swift |-> B4(2), LD |-> B4(3)] ]
Plain == DOMAIN NUM
Names(ty) == DOMAIN NUM[ty]

\* CPU type and subtype
CPU == [X86 |-> <<B4(7), B4(3)>>, X86_64 |-> <<<<7, 0, 0, 1>>, B4(3)>>]

\* a set of flags: the union of their bits
Or4(a, b) == [i \in 1..4 |-> a[i] | b[i]]
Union4(ty, names) == FoldLeft(LAMBDA a, n : Or4(a, NUM[ty][n]), Zeros(4), names)

\* n_type: pext 0x10, type 0x0e, ext 0x01; debugging entries are whole bytes
NTypeNum(v) == IF v[1] = "Stab" THEN NUM.DebugSymbol[v[2]]
               ELSE <<NUM.NType[v[2]][1] + 16 * v[3][1] + v[4][1]>>
NTypeValues == {<<"Stab", n>> : n \in Names("DebugSymbol")} \cup
               {<<"Norm", n, <<p>>, <<e>>>> : n \in Names("NType"), p \in {0, 1}, e \in {0, 1}}
\* xxxx.yy.zz
VersionNum(v) == <<v[3][1], v[2][1], v[1][1], v[1][2]>>

\* sanity of the tables themselves
Injective == \A ty \in Plain : \A a, b \in Names(ty) : NUM[ty][a] = NUM[ty][b] => a = b
FlagBits == \A ty \in {"Flag", "SectionAttr"} : \A a \in Names(ty) : \E k \in 0..31 : NUM[ty][a] = Bit(k)
Swapped == /\ NUM.Magic.Cigam64 = Rev(NUM.Magic.Magic64)
           /\ NUM.Magic.Cigam = Rev(NUM.Magic.Magic)
           /\ NUM.Magic.FatCigam = Rev(NUM.Magic.FatMagic)
NTypeInjective == \A a, b \in NTypeValues : NTypeNum(a) = NTypeNum(b) => a = b
ASSUME Injective /\ FlagBits /\ Swapped /\ NTypeInjective
=============================================================================
