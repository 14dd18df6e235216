// The C view of the data structures: reads and writes every field by the name the header gives it.
// Values are numbered by the position of their name in the lists here (the same lists are in src/bin/mc_head.rs).
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "m68000/m68000-ffi.h"

static int64_t dir_no(m68000_direction_t v)
{
    switch(v)
    {
        case RegisterToMemory: return 0;
        case MemoryToRegister: return 1;
        case DstReg: return 2;
        case DstEa: return 3;
        case Left: return 4;
        case Right: return 5;
        case RegisterToUsp: return 6;
        case UspToRegister: return 7;
        case RegisterToRegister: return 8;
        case MemoryToMemory: return 9;
        case ExchangeData: return 10;
        case ExchangeAddress: return 11;
        case ExchangeDataAddress: return 12;
    }
    return -1;
}
static const m68000_direction_t dir_by_no[] = { RegisterToMemory, MemoryToRegister, DstReg, DstEa, Left, Right, RegisterToUsp, UspToRegister, RegisterToRegister, MemoryToMemory, ExchangeData, ExchangeAddress, ExchangeDataAddress };
static int64_t size_no(m68000_size_t v)
{
    switch(v)
    {
        case Byte: return 0;
        case Word: return 1;
        case Long: return 2;
    }
    return -1;
}
static const m68000_size_t size_by_no[] = { Byte, Word, Long };

static int64_t *mode_out(const m68000_addressing_mode_t *m, int64_t *f)
{
    switch(m->tag)
    {
        case Drd: *f++ = 0; *f++ = m->drd; break;
        case Ard: *f++ = 1; *f++ = m->ard; break;
        case Ari: *f++ = 2; *f++ = m->ari; break;
        case Ariwpo: *f++ = 3; *f++ = m->ariwpo; break;
        case Ariwpr: *f++ = 4; *f++ = m->ariwpr; break;
        case Ariwd: *f++ = 5; *f++ = m->ariwd._0; *f++ = m->ariwd._1; break;
        case Ariwi8: *f++ = 6; *f++ = m->ariwi8._0; *f++ = m->ariwi8._1._0; break;
        case AbsShort: *f++ = 7; *f++ = m->abs_short; break;
        case AbsLong: *f++ = 8; *f++ = m->abs_long; break;
        case Pciwd: *f++ = 9; *f++ = m->pciwd._0; *f++ = m->pciwd._1; break;
        case Pciwi8: *f++ = 10; *f++ = m->pciwi8._0; *f++ = m->pciwi8._1._0; break;
        case Immediate: *f++ = 11; *f++ = m->immediate; break;
        default: *f++ = -1; break;
    }
    return f;
}

static const int64_t *mode_in(m68000_addressing_mode_t *m, const int64_t *f)
{
    switch(*f++)
    {
        case 0: m->tag = Drd; m->drd = (uint8_t)*f++; break;
        case 1: m->tag = Ard; m->ard = (uint8_t)*f++; break;
        case 2: m->tag = Ari; m->ari = (uint8_t)*f++; break;
        case 3: m->tag = Ariwpo; m->ariwpo = (uint8_t)*f++; break;
        case 4: m->tag = Ariwpr; m->ariwpr = (uint8_t)*f++; break;
        case 5: m->tag = Ariwd; m->ariwd._0 = (uint8_t)*f++; m->ariwd._1 = (int16_t)*f++; break;
        case 6: m->tag = Ariwi8; m->ariwi8._0 = (uint8_t)*f++; m->ariwi8._1._0 = (uint16_t)*f++; break;
        case 7: m->tag = AbsShort; m->abs_short = (uint16_t)*f++; break;
        case 8: m->tag = AbsLong; m->abs_long = (uint32_t)*f++; break;
        case 9: m->tag = Pciwd; m->pciwd._0 = (uint32_t)*f++; m->pciwd._1 = (int16_t)*f++; break;
        case 10: m->tag = Pciwi8; m->pciwi8._0 = (uint32_t)*f++; m->pciwi8._1._0 = (uint16_t)*f++; break;
        case 11: m->tag = Immediate; m->immediate = (uint32_t)*f++; break;
    }
    return f;
}

// The fields of an instruction, in order.
int64_t *head_read(const m68000_instruction_t *i, int64_t *f)
{
    *f++ = i->opcode;
    *f++ = i->pc;
    const m68000_operands_t *o = &i->operands;
    switch(o->tag)
    {
        case NoOperands: *f++ = 0; break;
        case Immediate_: *f++ = 1; *f++ = o->immediate; break;
        case SizeEffectiveAddressImmediate: *f++ = 2; *f++ = size_no(o->size_effective_address_immediate._0); f = mode_out(&o->size_effective_address_immediate._1, f); *f++ = o->size_effective_address_immediate._2; break;
        case EffectiveAddressCount: *f++ = 3; f = mode_out(&o->effective_address_count._0, f); *f++ = o->effective_address_count._1; break;
        case EffectiveAddress: *f++ = 4; f = mode_out(&o->effective_address, f); break;
        case SizeEffectiveAddress: *f++ = 5; *f++ = size_no(o->size_effective_address._0); f = mode_out(&o->size_effective_address._1, f); break;
        case RegisterEffectiveAddress: *f++ = 6; *f++ = o->register_effective_address._0; f = mode_out(&o->register_effective_address._1, f); break;
        case RegisterDirectionSizeRegisterDisplacement: *f++ = 7; *f++ = o->register_direction_size_register_displacement._0; *f++ = dir_no(o->register_direction_size_register_displacement._1); *f++ = size_no(o->register_direction_size_register_displacement._2); *f++ = o->register_direction_size_register_displacement._3; *f++ = o->register_direction_size_register_displacement._4; break;
        case SizeRegisterEffectiveAddress: *f++ = 8; *f++ = size_no(o->size_register_effective_address._0); *f++ = o->size_register_effective_address._1; f = mode_out(&o->size_register_effective_address._2, f); break;
        case SizeEffectiveAddressEffectiveAddress: *f++ = 9; *f++ = size_no(o->size_effective_address_effective_address._0); f = mode_out(&o->size_effective_address_effective_address._1, f); f = mode_out(&o->size_effective_address_effective_address._2, f); break;
        case RegisterOpmodeRegister: *f++ = 10; *f++ = o->register_opmode_register._0; *f++ = dir_no(o->register_opmode_register._1); *f++ = o->register_opmode_register._2; break;
        case OpmodeRegister: *f++ = 11; *f++ = o->opmode_register._0; *f++ = o->opmode_register._1; break;
        case Vector: *f++ = 12; *f++ = o->vector; break;
        case RegisterDisplacement: *f++ = 13; *f++ = o->register_displacement._0; *f++ = o->register_displacement._1; break;
        case Register: *f++ = 14; *f++ = o->register_; break;
        case DirectionRegister: *f++ = 15; *f++ = dir_no(o->direction_register._0); *f++ = o->direction_register._1; break;
        case DirectionSizeEffectiveAddressList: *f++ = 16; *f++ = dir_no(o->direction_size_effective_address_list._0); *f++ = size_no(o->direction_size_effective_address_list._1); f = mode_out(&o->direction_size_effective_address_list._2, f); *f++ = o->direction_size_effective_address_list._3; break;
        case DataSizeEffectiveAddress: *f++ = 17; *f++ = o->data_size_effective_address._0; *f++ = size_no(o->data_size_effective_address._1); f = mode_out(&o->data_size_effective_address._2, f); break;
        case ConditionEffectiveAddress: *f++ = 18; *f++ = o->condition_effective_address._0; f = mode_out(&o->condition_effective_address._1, f); break;
        case ConditionRegisterDisplacement: *f++ = 19; *f++ = o->condition_register_displacement._0; *f++ = o->condition_register_displacement._1; *f++ = o->condition_register_displacement._2; break;
        case Displacement: *f++ = 20; *f++ = o->displacement; break;
        case ConditionDisplacement: *f++ = 21; *f++ = o->condition_displacement._0; *f++ = o->condition_displacement._1; break;
        case RegisterData: *f++ = 22; *f++ = o->register_data._0; *f++ = o->register_data._1; break;
        case RegisterDirectionSizeEffectiveAddress: *f++ = 23; *f++ = o->register_direction_size_effective_address._0; *f++ = dir_no(o->register_direction_size_effective_address._1); *f++ = size_no(o->register_direction_size_effective_address._2); f = mode_out(&o->register_direction_size_effective_address._3, f); break;
        case RegisterSizeEffectiveAddress: *f++ = 24; *f++ = o->register_size_effective_address._0; *f++ = size_no(o->register_size_effective_address._1); f = mode_out(&o->register_size_effective_address._2, f); break;
        case RegisterSizeModeRegister: *f++ = 25; *f++ = o->register_size_mode_register._0; *f++ = size_no(o->register_size_mode_register._1); *f++ = dir_no(o->register_size_mode_register._2); *f++ = o->register_size_mode_register._3; break;
        case RegisterSizeRegister: *f++ = 26; *f++ = o->register_size_register._0; *f++ = size_no(o->register_size_register._1); *f++ = o->register_size_register._2; break;
        case DirectionEffectiveAddress: *f++ = 27; *f++ = dir_no(o->direction_effective_address._0); f = mode_out(&o->direction_effective_address._1, f); break;
        case RotationDirectionSizeModeRegister: *f++ = 28; *f++ = o->rotation_direction_size_mode_register._0; *f++ = dir_no(o->rotation_direction_size_mode_register._1); *f++ = size_no(o->rotation_direction_size_mode_register._2); *f++ = o->rotation_direction_size_mode_register._3; *f++ = o->rotation_direction_size_mode_register._4; break;
        default: *f++ = -1; break;
    }
    return f;
}

// The instruction with these fields.
void head_write(m68000_instruction_t *i, const int64_t *f)
{
    memset(i, 0xA5, sizeof *i);
    i->opcode = (uint16_t)*f++;
    i->pc = (uint32_t)*f++;
    m68000_operands_t *o = &i->operands;
    switch(*f++)
    {
        case 0: o->tag = NoOperands; break;
        case 1: o->tag = Immediate_; o->immediate = (uint16_t)*f++; break;
        case 2: o->tag = SizeEffectiveAddressImmediate; o->size_effective_address_immediate._0 = size_by_no[*f++]; f = mode_in(&o->size_effective_address_immediate._1, f); o->size_effective_address_immediate._2 = (uint32_t)*f++; break;
        case 3: o->tag = EffectiveAddressCount; f = mode_in(&o->effective_address_count._0, f); o->effective_address_count._1 = (uint8_t)*f++; break;
        case 4: o->tag = EffectiveAddress; f = mode_in(&o->effective_address, f); break;
        case 5: o->tag = SizeEffectiveAddress; o->size_effective_address._0 = size_by_no[*f++]; f = mode_in(&o->size_effective_address._1, f); break;
        case 6: o->tag = RegisterEffectiveAddress; o->register_effective_address._0 = (uint8_t)*f++; f = mode_in(&o->register_effective_address._1, f); break;
        case 7: o->tag = RegisterDirectionSizeRegisterDisplacement; o->register_direction_size_register_displacement._0 = (uint8_t)*f++; o->register_direction_size_register_displacement._1 = dir_by_no[*f++]; o->register_direction_size_register_displacement._2 = size_by_no[*f++]; o->register_direction_size_register_displacement._3 = (uint8_t)*f++; o->register_direction_size_register_displacement._4 = (int16_t)*f++; break;
        case 8: o->tag = SizeRegisterEffectiveAddress; o->size_register_effective_address._0 = size_by_no[*f++]; o->size_register_effective_address._1 = (uint8_t)*f++; f = mode_in(&o->size_register_effective_address._2, f); break;
        case 9: o->tag = SizeEffectiveAddressEffectiveAddress; o->size_effective_address_effective_address._0 = size_by_no[*f++]; f = mode_in(&o->size_effective_address_effective_address._1, f); f = mode_in(&o->size_effective_address_effective_address._2, f); break;
        case 10: o->tag = RegisterOpmodeRegister; o->register_opmode_register._0 = (uint8_t)*f++; o->register_opmode_register._1 = dir_by_no[*f++]; o->register_opmode_register._2 = (uint8_t)*f++; break;
        case 11: o->tag = OpmodeRegister; o->opmode_register._0 = (uint8_t)*f++; o->opmode_register._1 = (uint8_t)*f++; break;
        case 12: o->tag = Vector; o->vector = (uint8_t)*f++; break;
        case 13: o->tag = RegisterDisplacement; o->register_displacement._0 = (uint8_t)*f++; o->register_displacement._1 = (int16_t)*f++; break;
        case 14: o->tag = Register; o->register_ = (uint8_t)*f++; break;
        case 15: o->tag = DirectionRegister; o->direction_register._0 = dir_by_no[*f++]; o->direction_register._1 = (uint8_t)*f++; break;
        case 16: o->tag = DirectionSizeEffectiveAddressList; o->direction_size_effective_address_list._0 = dir_by_no[*f++]; o->direction_size_effective_address_list._1 = size_by_no[*f++]; f = mode_in(&o->direction_size_effective_address_list._2, f); o->direction_size_effective_address_list._3 = (uint16_t)*f++; break;
        case 17: o->tag = DataSizeEffectiveAddress; o->data_size_effective_address._0 = (uint8_t)*f++; o->data_size_effective_address._1 = size_by_no[*f++]; f = mode_in(&o->data_size_effective_address._2, f); break;
        case 18: o->tag = ConditionEffectiveAddress; o->condition_effective_address._0 = (uint8_t)*f++; f = mode_in(&o->condition_effective_address._1, f); break;
        case 19: o->tag = ConditionRegisterDisplacement; o->condition_register_displacement._0 = (uint8_t)*f++; o->condition_register_displacement._1 = (uint8_t)*f++; o->condition_register_displacement._2 = (int16_t)*f++; break;
        case 20: o->tag = Displacement; o->displacement = (int16_t)*f++; break;
        case 21: o->tag = ConditionDisplacement; o->condition_displacement._0 = (uint8_t)*f++; o->condition_displacement._1 = (int16_t)*f++; break;
        case 22: o->tag = RegisterData; o->register_data._0 = (uint8_t)*f++; o->register_data._1 = (int8_t)*f++; break;
        case 23: o->tag = RegisterDirectionSizeEffectiveAddress; o->register_direction_size_effective_address._0 = (uint8_t)*f++; o->register_direction_size_effective_address._1 = dir_by_no[*f++]; o->register_direction_size_effective_address._2 = size_by_no[*f++]; f = mode_in(&o->register_direction_size_effective_address._3, f); break;
        case 24: o->tag = RegisterSizeEffectiveAddress; o->register_size_effective_address._0 = (uint8_t)*f++; o->register_size_effective_address._1 = size_by_no[*f++]; f = mode_in(&o->register_size_effective_address._2, f); break;
        case 25: o->tag = RegisterSizeModeRegister; o->register_size_mode_register._0 = (uint8_t)*f++; o->register_size_mode_register._1 = size_by_no[*f++]; o->register_size_mode_register._2 = dir_by_no[*f++]; o->register_size_mode_register._3 = (uint8_t)*f++; break;
        case 26: o->tag = RegisterSizeRegister; o->register_size_register._0 = (uint8_t)*f++; o->register_size_register._1 = size_by_no[*f++]; o->register_size_register._2 = (uint8_t)*f++; break;
        case 27: o->tag = DirectionEffectiveAddress; o->direction_effective_address._0 = dir_by_no[*f++]; f = mode_in(&o->direction_effective_address._1, f); break;
        case 28: o->tag = RotationDirectionSizeModeRegister; o->rotation_direction_size_mode_register._0 = (uint8_t)*f++; o->rotation_direction_size_mode_register._1 = dir_by_no[*f++]; o->rotation_direction_size_mode_register._2 = size_by_no[*f++]; o->rotation_direction_size_mode_register._3 = (uint8_t)*f++; o->rotation_direction_size_mode_register._4 = (uint8_t)*f++; break;
    }
}

void head_sr_out(const m68000_status_register_t *s, uint8_t *f)
{
    f[0] = s->t; f[1] = s->s; f[2] = s->interrupt_mask; f[3] = s->x; f[4] = s->n; f[5] = s->z; f[6] = s->v; f[7] = s->c;
}
void head_sr_in(m68000_status_register_t *s, const uint8_t *f)
{
    s->t = f[0]; s->s = f[1]; s->interrupt_mask = f[2]; s->x = f[3]; s->n = f[4]; s->z = f[5]; s->v = f[6]; s->c = f[7];
}
uint16_t head_brief_out(const m68000_brief_extension_word_t *b) { return b->_0; }

// Constants of the header, by name.
const int64_t HEAD_CONSTANTS[] = {
    m68000_status_register_t_DEFAULT,
    RegisterToMemory, MemoryToRegister, DstReg, DstEa, Left, Right, RegisterToUsp, UspToRegister, RegisterToRegister, MemoryToMemory, ExchangeData, ExchangeAddress, ExchangeDataAddress,
    Byte, Word, Long,
    ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt, Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt, Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction, Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction, Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
};
// Sizes and places of the fields.
#define T(t) (int64_t)sizeof(t), (int64_t)_Alignof(t)
#define F(t, f) (int64_t)offsetof(t, f)
const int64_t HEAD_LAYOUT[] = {
    T(m68000_direction_t),
    T(m68000_size_t),
    T(m68000_brief_extension_word_t), F(m68000_brief_extension_word_t, _0),
    T(m68000_addressing_mode_t),
    T(m68000_operands_t),
    T(m68000_instruction_t), F(m68000_instruction_t, opcode), F(m68000_instruction_t, pc), F(m68000_instruction_t, operands),
    T(m68000_status_register_t), F(m68000_status_register_t, t), F(m68000_status_register_t, s), F(m68000_status_register_t, interrupt_mask), F(m68000_status_register_t, x), F(m68000_status_register_t, n), F(m68000_status_register_t, z), F(m68000_status_register_t, v), F(m68000_status_register_t, c),
    T(m68000_registers_t), F(m68000_registers_t, d), F(m68000_registers_t, a), F(m68000_registers_t, usp), F(m68000_registers_t, ssp), F(m68000_registers_t, sr), F(m68000_registers_t, pc),
    T(m68000_memory_result_t), F(m68000_memory_result_t, data), F(m68000_memory_result_t, exception),
    T(m68000_exception_result_t), F(m68000_exception_result_t, cycles), F(m68000_exception_result_t, exception),
    T(m68000_disassembler_result_t), F(m68000_disassembler_result_t, cycles), F(m68000_disassembler_result_t, pc),
    T(m68000_disassembler_exception_result_t), F(m68000_disassembler_exception_result_t, cycles), F(m68000_disassembler_exception_result_t, pc), F(m68000_disassembler_exception_result_t, exception),
    T(m68000_callbacks_t), F(m68000_callbacks_t, get_byte), F(m68000_callbacks_t, get_word), F(m68000_callbacks_t, get_long), F(m68000_callbacks_t, set_byte), F(m68000_callbacks_t, set_word), F(m68000_callbacks_t, set_long), F(m68000_callbacks_t, reset_instruction), F(m68000_callbacks_t, user_data),
};
