// Stand-in for AOCL-Utils' header (not installed here): declarations only as rich as
// AOCL-DA's use of them. Reports a non-AMD CPU without AVX-512.
#pragma once
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag { avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw,
                        avx512vbmi, avx512_4vnniw, avx512_vpopcntdq, avx512_fp16 };
class X86Cpu {
  public:
    X86Cpu(int = 0) {}
    EUarch getUarch() const { return EUarch::Unknown; }
    bool hasFlag(ECpuidFlag f) const { return f == ECpuidFlag::avx2; }
    bool isAMD() const { return false; }
};
} // namespace Au
