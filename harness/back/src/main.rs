//! Drives the back end of the tree (machine, compiler, ABI) on cases from TLC.
mod pool;
use cairo_m_common::abi_codec::parse_cli_arg;
use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo};
use cairo_m_common::{AbiCodecError, CairoMValue, InputValue, Instruction, InstructionError, Program, ProgramData};
use cairo_m_common::execution::Segment;
use cairo_m_compiler::{compile_cairo, CompilerError, CompilerOptions};
use cairo_m_compiler_mir::pipeline::OptimizationLevel;
use cairo_m_runner::memory::MemoryError;
use cairo_m_runner::vm::instructions::InstructionExecutionError;
use cairo_m_runner::vm::{VmError, VM};
use cairo_m_runner::{run_cairo_program, RunnerError, RunnerOptions};
use serde_json::{json, Value};
use smallvec::SmallVec;
use std::collections::HashMap;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

fn main() {
    let cmd = std::env::args().nth(1).expect("command");
    match cmd.as_str() {
        "vm" => pool::run(vm_case),
        "run" => pool::run(run_case),
        "codec" => pool::run(codec_case),
        "abi" => pool::run(abi_case),
        "cli" => pool::run(|c| match parse_cli_arg(c["s"].as_str().unwrap()) {
            Ok(v) => json!({"ok": put_input(&v)}),
            Err(e) => json!({"err": abi_kind(&e)}),
        }),
        _ => panic!("unknown command"),
    }
}

fn u(v: &Value) -> u32 { v.as_u64().unwrap() as u32 }
fn m(v: &Value) -> M31 { M31::from(u(v)) }
fn q(v: &Value) -> QM31 { QM31::from_u32_unchecked(u(&v[0]), u(&v[1]), u(&v[2]), u(&v[3])) }
fn unq(x: QM31) -> Value { json!([x.0 .0 .0, x.0 .1 .0, x.1 .0 .0, x.1 .1 .0]) }

// ---------------------------------------------------------------- programs
fn item(v: &Value) -> Result<ProgramData, InstructionError> {
    if let Some(c) = v.get("c") {
        let mut s: SmallVec<[M31; cairo_m_common::instruction::INSTRUCTION_MAX_SIZE]> = SmallVec::new();
        s.push(m(c));
        for x in v["x"].as_array().unwrap() { s.push(m(x)); }
        Ok(ProgramData::Instruction(Instruction::try_from(s)?))
    } else { Ok(ProgramData::Value(q(&v["w"]))) }
}
fn abi_kind(e: &AbiCodecError) -> &'static str {
    match e {
        AbiCodecError::TypeMismatch(_) => "type", AbiCodecError::InsufficientData => "insufficient",
        AbiCodecError::TrailingOrInsufficientData => "trailing", AbiCodecError::ParseError(_) => "parse", _ => "abi",
    }
}
fn mem_kind(e: &MemoryError) -> &'static str {
    match e {
        MemoryError::AddressOutOfBounds { .. } => "bounds", MemoryError::BaseFieldProjectionFailed { .. } => "project",
        MemoryError::UninitializedMemoryCell { .. } => "uninit", MemoryError::U32LimbOutOfRange { .. } => "limb",
    }
}
fn ins_kind(e: &InstructionError) -> &'static str {
    match e {
        InstructionError::InvalidOpcode(_) => "opcode", InstructionError::SizeMismatch { .. } => "size",
        InstructionError::AssertionFailed(..) => "assert", InstructionError::InvalidInstructionType(_) => "type",
    }
}
fn vm_kind(e: &VmError) -> &'static str {
    match e {
        VmError::Memory(e) => mem_kind(e), VmError::Instruction(e) => ins_kind(e),
        VmError::InstructionExecution(InstructionExecutionError::Memory(e)) => mem_kind(e),
        VmError::InstructionExecution(InstructionExecutionError::Instruction(e)) => ins_kind(e),
        VmError::InstructionExecution(InstructionExecutionError::InvalidOperand(_)) => "operand",
        _ => "other",
    }
}
fn run_kind(e: &RunnerError) -> &'static str {
    match e {
        RunnerError::EntryPointNotFound(..) => "entry", RunnerError::VmError(e) => vm_kind(e), RunnerError::ReturnValueError(e) => mem_kind(e),
        RunnerError::ArgumentCountMismatch { .. } => "count", RunnerError::AbiError(e) => abi_kind(e),
    }
}
fn put_trace(t: &[cairo_m_common::State]) -> Value { Value::Array(t.iter().map(|s| json!([s.pc.0, s.fp.0])).collect()) }
fn put_mt(t: &[cairo_m_common::state::MemoryEntry]) -> Value { Value::Array(t.iter().map(|e| json!([e.addr.0, unq(e.value)])).collect()) }
fn put_seg(s: &Segment) -> Value {
    let mut cells: Vec<(u32, Value)> = s.initial_memory.iter().filter(|(_, v)| v.0 != QM31::from_u32_unchecked(0, 0, 0, 0)).map(|(a, v)| (a.0, unq(v.0))).collect();
    cells.sort_by_key(|c| c.0);
    let marks = s.initial_memory.values().all(|v| v.1 == M31::from(0u32) && v.2 == M31::from(0u32));
    json!({"init": cells, "marks": marks, "size": s.initial_memory.len(), "tr": put_trace(&s.trace), "mt": put_mt(&s.memory_trace.borrow()),
           "trb": words(&s.serialize_segment_trace()), "mtb": words(&s.serialize_segment_memory_trace())})
}
/// what a reader of the binary trace files sees
fn words(b: &[u8]) -> Value { json!(b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>()) }

/// {prog: [{c, x} | {w}], entry, off, args, nret, max_steps, probes}
fn vm_case(c: &Value) -> Value {
    let mut data = vec![];
    for v in c["prog"].as_array().unwrap() { match item(v) { Ok(d) => data.push(d), Err(e) => return json!({"item": ins_kind(&e)}) } }
    let program = Program::new(data, HashMap::new(), Default::default());
    let mut vm = VM::try_from(&program).unwrap();
    let args: Vec<M31> = c["args"].as_array().unwrap().iter().map(m).collect();
    let max_steps = c["max_steps"].as_u64().unwrap() as usize;
    let r = vm.run_from_entrypoint(u(&c["entry"]), u(&c["off"]), &args, c["nret"].as_u64().unwrap() as usize, &RunnerOptions { max_steps });
    let err = r.err().map(|e| vm_kind(&e));
    let probes: Vec<Value> = c["probes"].as_array().unwrap().iter().map(|a| match vm.memory.get_data_no_trace(m(a)) { Ok(v) => json!(v.0), Err(e) => json!(mem_kind(&e)) }).collect();
    let mt = put_mt(&vm.memory.trace.borrow());
    json!({"err": err, "pc": vm.state.pc.0, "fp": vm.state.fp.0, "final": vm.final_pc.0, "segs": vm.segments.iter().map(put_seg).collect::<Vec<_>>(),
           "tr": put_trace(&vm.trace), "mt": mt, "probes": probes})
}

// ------------------------------------------------------------------- values
fn get_input(v: &Value) -> InputValue {
    if let Some(n) = v.get("n") { InputValue::Number(n.as_i64().unwrap()) }
    else if let Some(b) = v.get("b") { InputValue::Bool(b.as_bool().unwrap()) }
    else if let Some(l) = v.get("l") { InputValue::List(l.as_array().unwrap().iter().map(get_input).collect()) }
    else if let Some(l) = v.get("s") { InputValue::Struct(l.as_array().unwrap().iter().map(get_input).collect()) }
    else { InputValue::Unit }
}
fn put_input(v: &InputValue) -> Value {
    match v {
        InputValue::Number(n) => json!({"n": n}), InputValue::Bool(b) => json!({"b": b}),
        InputValue::List(l) => json!({"l": l.iter().map(put_input).collect::<Vec<_>>()}),
        InputValue::Struct(l) => json!({"s": l.iter().map(put_input).collect::<Vec<_>>()}), InputValue::Unit => json!({"z": 0}),
    }
}
fn put_value(v: &CairoMValue) -> Value {
    match v {
        CairoMValue::Felt(x) => json!({"k": "felt", "v": x.0}), CairoMValue::Bool(b) => json!({"k": "bool", "v": b}), CairoMValue::U32(x) => json!({"k": "u32", "v": x}),
        CairoMValue::Pointer(x) => json!({"k": "ptr", "v": x.0}),
        CairoMValue::Tuple(l) => json!({"k": "tuple", "v": l.iter().map(put_value).collect::<Vec<_>>()}),
        CairoMValue::Array(l) => json!({"k": "array", "v": l.iter().map(put_value).collect::<Vec<_>>()}),
        CairoMValue::Struct(l) => json!({"k": "struct", "f": l.iter().map(|(n, _)| n).collect::<Vec<_>>(), "v": l.iter().map(|(_, v)| put_value(v)).collect::<Vec<_>>()}),
        CairoMValue::Unit => json!({"k": "unit"}),
    }
}
/// {k: felt|bool|u32|unit|ptr|tuple|struct|array, ...}
fn get_type(v: &Value) -> AbiType {
    let sub = |v: &Value| v["e"].as_array().unwrap().iter().map(get_type).collect::<Vec<_>>();
    match v["k"].as_str().unwrap() {
        "felt" => AbiType::Felt, "bool" => AbiType::Bool, "u32" => AbiType::U32, "unit" => AbiType::Unit,
        "ptr" => AbiType::Pointer { element: Box::new(get_type(&v["e"][0])), len: None },
        "lptr" => AbiType::Pointer { element: Box::new(get_type(&v["e"][0])), len: Some(u(&v["n"])) },
        "tuple" => AbiType::Tuple(sub(v)),
        "struct" => AbiType::Struct { name: "S".into(), fields: sub(v).into_iter().enumerate().map(|(i, t)| (format!("f{i}"), t)).collect() },
        "array" => AbiType::FixedSizeArray { element: Box::new(get_type(&v["e"][0])), size: u(&v["n"]) },
        k => panic!("type {k}"),
    }
}
fn put_type(t: &AbiType) -> Value {
    match t {
        AbiType::Felt => json!({"k": "felt"}), AbiType::Bool => json!({"k": "bool"}), AbiType::U32 => json!({"k": "u32"}), AbiType::Unit => json!({"k": "unit"}),
        AbiType::Pointer { element, len: None } => json!({"k": "ptr", "e": [put_type(element)]}),
        AbiType::Pointer { element, len: Some(n) } => json!({"k": "lptr", "e": [put_type(element)], "n": n}),
        AbiType::Tuple(l) => json!({"k": "tuple", "e": l.iter().map(put_type).collect::<Vec<_>>()}),
        AbiType::Struct { name, fields } => json!({"k": "struct", "name": name, "f": fields.iter().map(|f| &f.0).collect::<Vec<_>>(), "e": fields.iter().map(|f| put_type(&f.1)).collect::<Vec<_>>()}),
        AbiType::FixedSizeArray { element, size } => json!({"k": "array", "e": [put_type(element)], "n": size}),
    }
}
fn put_slots(l: &[AbiSlot]) -> Value { Value::Array(l.iter().map(|s| json!([s.name, put_type(&s.ty)])).collect()) }

fn call(p: &Program, c: &Value) -> Value {
    let args: Vec<InputValue> = c["args"].as_array().map(|l| l.iter().map(get_input).collect()).unwrap_or_default();
    let max_steps = c["max_steps"].as_u64().unwrap_or(200_000) as usize;
    let entry = c["entry"].as_str().unwrap_or("main");
    // a program that never halts would segment its run for ever
    pool::guarded(|| match run_cairo_program(p, entry, &args, RunnerOptions { max_steps }) {
        Err(e) => json!({"err": run_kind(&e)}),
        Ok(o) => {
            let r = &o.public_address_ranges;
            let last = o.vm.segments.last().map(|s| s.trace.len()).unwrap_or(0);
            let mut v = json!({"ret": o.return_values.iter().map(put_value).collect::<Vec<_>>(), "segs": o.vm.segments.len(), "last": last, "len": o.vm.program_length.0,
                   "pc": o.vm.state.pc.0, "fp": o.vm.state.fp.0,
                   "ranges": [[r.program.start, r.program.end], [r.input.start, r.input.end], [r.output.start, r.output.end]]});
            if let Some(a) = c["at"].as_array() {
                v["at"] = Value::Array(a.iter().map(|x| match o.vm.memory.get_data_no_trace(m(x)) { Ok(v) => json!(v.0), Err(e) => json!(mem_kind(&e)) }).collect());
            }
            if c["init"].as_bool() == Some(true) {
                let s = &o.vm.segments[0];
                let mut cells: Vec<(u32, Value)> = s.initial_memory.iter().filter(|(a, _)| a.0 >= o.vm.program_length.0).map(|(a, v)| (a.0, unq(v.0))).collect();
                cells.sort_by_key(|c| c.0);
                v["init"] = json!(cells);
            }
            v
        }
    })
}

/// {src, calls: [{entry, args, max_steps}]} compiled with and without optimisation
fn run_case(c: &Value) -> Value {
    let mut out = serde_json::Map::new();
    for (name, lvl) in [("none", OptimizationLevel::None), ("std", OptimizationLevel::Standard)] {
        if c.get("only").map(|o| o.as_str() != Some(name)).unwrap_or(false) { continue; }
        let opt = CompilerOptions { verbose: false, optimization_level: lvl };
        let v = pool::guarded(|| match compile_cairo(c["src"].as_str().unwrap().to_string(), "main.cm".to_string(), opt) {
            Err(CompilerError::ParseErrors(d)) => json!({"fail": "parse", "d": d.iter().map(|d| d.message.clone()).collect::<Vec<_>>()}),
            Err(CompilerError::SemanticErrors(d)) => json!({"fail": "semantic", "d": d.iter().map(|d| d.message.clone()).collect::<Vec<_>>()}),
            Err(CompilerError::CodeGenerationFailed(d)) => json!({"fail": "codegen", "d": [d]}),
            Err(CompilerError::MirGenerationFailed) => json!({"fail": "mir", "d": []}),
            Ok(o) => {
                let p = &*o.program;
                let calls: Vec<Value> = c["calls"].as_array().unwrap().iter().map(|k| call(p, k)).collect();
                let mut eps: Vec<(&String, Value)> = p.entrypoints.iter().map(|(n, e)| (n, json!([e.pc, put_slots(&e.params), put_slots(&e.returns)]))).collect();
                eps.sort_by_key(|e| e.0.clone());
                let mut v = json!({"calls": calls, "size": p.data.len(), "eps": eps, "words": p.data.iter().map(|d| d.to_qm31_vec().len()).sum::<usize>()});
                if c["dump"].as_bool() == Some(true) { v["prog"] = json!(p.data.iter().map(|d| match d { ProgramData::Instruction(i) => json!(format!("{i:?}")), ProgramData::Value(w) => unq(*w) }).collect::<Vec<_>>()); }
                // the compiled program survives being written down and read back
                let text = serde_json::to_string(p).unwrap();
                v["json"] = json!(match serde_json::from_str::<Program>(&text) { Ok(x) => x == *p, Err(_) => false });
                v
            }
        });
        out.insert(name.into(), v);
    }
    Value::Object(out)
}

/// {c, x}: one instruction (or what looks like one) through every representation
fn codec_case(c: &Value) -> Value {
    let mut all: Vec<u32> = c["c"].as_u64().map(|x| x as u32).into_iter().collect();
    all.extend(c["x"].as_array().unwrap().iter().map(u));
    let read = serde_json::from_value::<Instruction>(json!(all.iter().map(|x| format!("0x{x:x}")).collect::<Vec<_>>()));
    let sv: SmallVec<[M31; cairo_m_common::instruction::INSTRUCTION_MAX_SIZE]> = all.iter().map(|x| M31::from(*x)).collect();
    let d = match Instruction::try_from(sv) { Ok(i) => i, Err(e) => return json!({"err": ins_kind(&e), "jerr": read.is_err()}) };
    // what the machine keeps of it, and what the instruction itself converts to
    let again = Instruction::try_from(d.to_smallvec()).ok() == Some(d) && SmallVec::from(d) == d.to_smallvec() && SmallVec::from(&d) == d.to_smallvec()
        && ProgramData::Instruction(d).to_qm31_vec() == d.to_qm31_vec();
    let sv: Vec<u32> = d.to_smallvec().iter().map(|x| x.0).collect();
    let text = serde_json::to_string(&d).unwrap();
    let back = serde_json::from_str::<Instruction>(&text).ok().map(|x| x == d);
    json!({"op": format!("{d:?}").split([' ', '{']).next(), "sv": sv, "words": d.to_qm31_vec().into_iter().map(unq).collect::<Vec<_>>(), "code": d.opcode_value(),
           "size": [d.size_in_m31s(), d.size_in_qm31s() as usize], "by_code": [Instruction::size_in_m31s_for_opcode(d.opcode_value()).map(|x| x as u32), Instruction::size_in_qm31s_for_opcode(d.opcode_value())],
           "acc": d.memory_accesses(), "json": serde_json::from_str::<Value>(&text).unwrap(), "back": back, "jerr": read.is_err(), "again": again && read.ok() == Some(d)})
}

/// {params, returns, prog, calls}: a hand-made program with one entry point
fn abi_case(c: &Value) -> Value {
    let mut data = vec![];
    for v in c["prog"].as_array().unwrap() { match item(v) { Ok(d) => data.push(d), Err(e) => return json!({"item": ins_kind(&e)}) } }
    let slots = |v: &Value| v.as_array().unwrap().iter().map(|t| AbiSlot { name: "p".into(), ty: get_type(t) }).collect::<Vec<_>>();
    let info = EntrypointInfo { pc: u(&c["entry"]) as usize, params: slots(&c["params"]), returns: slots(&c["returns"]) };
    let program = Program::new(data, HashMap::from([("main".to_string(), info)]), Default::default());
    let text = serde_json::to_string(&program).unwrap();
    let same = serde_json::from_str::<Program>(&text).ok().map(|p| p == program);
    json!({"calls": c["calls"].as_array().unwrap().iter().map(|k| call(&program, k)).collect::<Vec<_>>(), "back": same})
}
