//! Timing model: the named entries of a processor's execution time tables, and the values of those tables for
//! the two supported processors.
//!
//! The MC68000 values were checked by hand against tables 8-1 to 8-14 of the M68000 User's Manual (9th edition); the
//! SCC68070 ones are those published for that part, recorded here as the reference copy.

macro_rules! times {
    ($($n:ident $m:literal $s:literal;)*) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u16)]
        pub enum K { $($n),* }
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        pub static MC: &[u64] = &[$($m),*];
        pub static SCC: &[u64] = &[$($s),*];
        /// Calls the given macro with all the names.
        #[macro_export]
        macro_rules! for_all_times { ($mac:ident) => { $mac! { $($n),* } } }
    };
}

times! {
    EA_ARI 4 4;
    EA_ARIWPO 4 4;
    EA_ARIWPR 6 7;
    EA_ARIWD 8 11;
    EA_ARIWI8 10 14;
    EA_ABSSHORT 8 8;
    EA_ABSLONG 12 12;
    EA_PCIWD 8 11;
    EA_PCIWI8 10 14;
    EA_IMMEDIATE 4 4;
    ABCD_REG 6 10;
    ABCD_MEM 18 31;
    ADD_REG_BW 4 7;
    ADD_REG_L 6 7;
    ADD_REG_L_RDIMM 8 7;
    ADD_MEM_BW 8 11;
    ADD_MEM_L 12 15;
    ADDA_WORD 8 7;
    ADDA_LONG 6 7;
    ADDA_LONG_RDIMM 8 7;
    ADDI_REG_BW 8 14;
    ADDI_REG_L 16 18;
    ADDI_MEM_BW 12 18;
    ADDI_MEM_L 20 26;
    ADDQ_REG_BW 4 7;
    ADDQ_REG_L 8 7;
    ADDQ_MEM_BW 8 11;
    ADDQ_MEM_L 12 15;
    ADDX_REG_BW 4 7;
    ADDX_REG_L 8 7;
    ADDX_MEM_BW 18 28;
    ADDX_MEM_L 30 40;
    AND_REG_BW 4 7;
    AND_REG_L 6 7;
    AND_REG_L_RDIMM 8 7;
    AND_MEM_BW 8 11;
    AND_MEM_L 12 15;
    ANDI_REG_BW 8 14;
    ANDI_REG_L 14 18;
    ANDI_MEM_BW 12 18;
    ANDI_MEM_L 20 26;
    ANDICCR 20 14;
    ANDISR 20 14;
    ASM 8 14;
    ASR_COUNT 2 3;
    ASR_BW 6 13;
    ASR_L 8 13;
    BCC_BRANCH 10 13;
    BCC_NO_BRANCH_BYTE 8 14;
    BCC_NO_BRANCH_WORD 12 14;
    BCHG_DYN_REG 8 10;
    BCHG_DYN_MEM 8 14;
    BCHG_STA_REG 12 17;
    BCHG_STA_MEM 12 21;
    BCLR_DYN_REG 10 10;
    BCLR_DYN_MEM 8 14;
    BCLR_STA_REG 14 17;
    BCLR_STA_MEM 12 21;
    BRA_BYTE 10 13;
    BRA_WORD 10 14;
    BSET_DYN_REG 8 10;
    BSET_DYN_MEM 8 14;
    BSET_STA_REG 12 17;
    BSET_STA_MEM 12 21;
    BSR_BYTE 18 17;
    BSR_WORD 18 22;
    BTST_DYN_REG 6 7;
    BTST_DYN_MEM 4 7;
    BTST_STA_REG 10 14;
    BTST_STA_MEM 8 14;
    CHK_NO_TRAP 10 19;
    CLR_REG_BW 4 7;
    CLR_REG_L 6 7;
    CLR_MEM_BW 8 7;
    CLR_MEM_L 12 7;
    CMP_BW 4 7;
    CMP_L 6 7;
    CMPA 6 7;
    CMPI_REG_BW 8 14;
    CMPI_REG_L 14 18;
    CMPI_MEM_BW 8 14;
    CMPI_MEM_L 12 18;
    CMPM_BW 12 18;
    CMPM_L 20 26;
    DBCC_TRUE 12 14;
    DBCC_FALSE_BRANCH 10 17;
    DBCC_FALSE_NO_BRANCH 14 17;
    DIVS 158 169;
    DIVU 140 130;
    EOR_REG_BW 4 7;
    EOR_REG_L 8 7;
    EOR_MEM_BW 8 11;
    EOR_MEM_L 12 15;
    EORI_REG_BW 8 14;
    EORI_REG_L 16 18;
    EORI_MEM_BW 12 18;
    EORI_MEM_L 20 26;
    EORICCR 20 14;
    EORISR 20 14;
    EXG 6 13;
    EXT 4 7;
    JMP_ARI 8 7;
    JMP_ARIWD 10 14;
    JMP_ARIWI8 14 17;
    JMP_ABSSHORT 10 14;
    JMP_ABSLONG 12 18;
    JMP_PCIWD 10 14;
    JMP_PCIWI8 14 17;
    JSR_ARI 16 18;
    JSR_ARIWD 18 25;
    JSR_ARIWI8 22 28;
    JSR_ABSSHORT 18 25;
    JSR_ABSLONG 20 29;
    JSR_PCIWD 18 25;
    JSR_PCIWI8 22 28;
    LEA_ARI 4 7;
    LEA_ARIWD 8 14;
    LEA_ARIWI8 12 17;
    LEA_ABSSHORT 8 14;
    LEA_ABSLONG 12 18;
    LEA_PCIWD 8 14;
    LEA_PCIWI8 12 17;
    LINK 16 25;
    LSM 8 14;
    LSR_COUNT 2 3;
    LSR_BW 6 13;
    LSR_L 8 13;
    MOVE_DST_ARIWPR 2 7;
    MOVE_OTHER 4 7;
    MOVEA 4 7;
    MOVECCR 12 10;
    MOVEFSR_REG 6 7;
    MOVEFSR_MEM 8 11;
    MOVESR 12 10;
    MOVEUSP 4 7;
    MOVEM_WORD 4 7;
    MOVEM_LONG 8 11;
    MOVEM_MTR 4 3;
    MOVEM_ARI 8 23;
    MOVEM_ARIWPO 8 23;
    MOVEM_ARIWPR 8 23;
    MOVEM_ARIWD 12 27;
    MOVEM_ARIWI8 14 30;
    MOVEM_ABSSHORT 12 27;
    MOVEM_ABSLONG 16 31;
    MOVEM_PCIWD 12 27;
    MOVEM_PCIWI8 14 30;
    MOVEP_RTM_WORD 16 25;
    MOVEP_RTM_LONG 24 39;
    MOVEP_MTR_WORD 16 22;
    MOVEP_MTR_LONG 24 36;
    MOVEQ 4 7;
    MULS 70 76;
    MULU 70 76;
    NBCD_REG 6 10;
    NBCD_MEM 8 14;
    NEG_REG_BW 4 7;
    NEG_REG_L 6 7;
    NEG_MEM_BW 8 11;
    NEG_MEM_L 12 15;
    NEGX_REG_BW 4 7;
    NEGX_REG_L 6 7;
    NEGX_MEM_BW 8 11;
    NEGX_MEM_L 12 15;
    NOP 4 7;
    NOT_REG_BW 4 7;
    NOT_REG_L 6 7;
    NOT_MEM_BW 8 11;
    NOT_MEM_L 12 15;
    OR_REG_BW 4 7;
    OR_REG_L 6 7;
    OR_REG_L_RDIMM 8 7;
    OR_MEM_BW 8 11;
    OR_MEM_L 12 15;
    ORI_REG_BW 8 14;
    ORI_REG_L 16 18;
    ORI_MEM_BW 12 18;
    ORI_MEM_L 20 26;
    ORICCR 20 14;
    ORISR 20 14;
    PEA_ARI 12 18;
    PEA_ARIWD 16 25;
    PEA_ARIWI8 20 28;
    PEA_ABSSHORT 16 25;
    PEA_ABSLONG 20 29;
    PEA_PCIWD 16 25;
    PEA_PCIWI8 20 28;
    RESET 132 154;
    ROM 8 14;
    ROR_COUNT 2 3;
    ROR_BW 6 13;
    ROR_L 8 13;
    ROXM 8 14;
    ROXR_COUNT 2 3;
    ROXR_BW 6 13;
    ROXR_L 8 13;
    RTE 20 39;
    RTR 20 22;
    RTS 16 15;
    SBCD_REG 6 10;
    SBCD_MEM 18 31;
    SCC_REG_FALSE 4 13;
    SCC_REG_TRUE 6 13;
    SCC_MEM_FALSE 8 17;
    SCC_MEM_TRUE 8 14;
    STOP 4 13;
    SUB_REG_BW 4 7;
    SUB_REG_L 6 7;
    SUB_REG_L_RDIMM 8 7;
    SUB_MEM_BW 8 11;
    SUB_MEM_L 12 15;
    SUBA_WORD 8 7;
    SUBA_LONG 6 7;
    SUBA_LONG_RDIMM 8 7;
    SUBI_REG_BW 8 14;
    SUBI_REG_L 16 18;
    SUBI_MEM_BW 12 18;
    SUBI_MEM_L 20 26;
    SUBQ_DREG_BW 4 7;
    SUBQ_AREG_BW 8 7;
    SUBQ_REG_L 8 7;
    SUBQ_MEM_BW 8 11;
    SUBQ_MEM_L 12 15;
    SUBX_REG_BW 4 7;
    SUBX_REG_L 8 7;
    SUBX_MEM_BW 18 28;
    SUBX_MEM_L 30 40;
    SWAP 4 7;
    TAS_REG 4 10;
    TAS_MEM 14 11;
    TRAPV_NO_TRAP 4 10;
    TST_REG_BW 4 7;
    TST_REG_L 4 7;
    TST_MEM_BW 4 7;
    TST_MEM_L 4 7;
    UNLK 12 15;
}

/// A processor as the model knows it.
#[derive(Clone, Copy)]
pub struct Cpu {
    pub name: &'static str,
    /// SCC68070 stack format.
    pub scc: bool,
    pub t: &'static [u64],
    pub reset: u64,
    pub vector: fn(u8) -> u64,
}

fn mc_vector(v: u8) -> u64 {
    match v { 2 | 3 => 50, 5 => 38, 6 => 40, 15 | 24..=31 | 57..=255 => 44, 4 | 7..=11 | 32..=47 => 34, _ => 40 }
}

fn scc_vector(v: u8) -> u64 {
    match v { 2 | 3 => 158, 5 | 6 => 64, 15 | 24..=31 | 57..=255 => 65, 4 | 7..=11 => 55, 32..=47 => 52, _ => 43 }
}

pub static MC68000: Cpu = Cpu { name: "mc68000", scc: false, t: MC, reset: 40, vector: mc_vector };
pub static SCC68070: Cpu = Cpu { name: "scc68070", scc: true, t: SCC, reset: 43, vector: scc_vector };
