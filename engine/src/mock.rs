//! A copy of the replay binary where instructions that ask about the processor, and code that not every
//! processor runs, raise an invalid-instruction exception, which the binary answers from its case
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn patched(exe: &Path, to: &Path) -> Result<PathBuf, String> {
    let out = |a: &[&str]| -> Result<String, String> {
        let o = Command::new("objdump").args(a).arg(exe).output().map_err(|e| format!("objdump: {e}"))?;
        if !o.status.success() { return Err("objdump fails".into()); }
        Ok(String::from_utf8_lossy(&o.stdout).to_string())
    };
    // address and file offset of the code
    let heads = out(&["-h", "-w"])?;
    let line = heads.lines().find(|l| l.split_whitespace().nth(1) == Some(".text")).ok_or("no code section")?;
    let f: Vec<&str> = line.split_whitespace().collect();
    let hex = |s: &str| u64::from_str_radix(s, 16).map_err(|e| e.to_string());
    let (size, vma, off) = (hex(f[2])?, hex(f[3])?, hex(f[5])?);
    let mut bytes = std::fs::read(exe).map_err(|e| e.to_string())?;
    let asm = out(&["-d", "-w", "-j", ".text", "-M", "intel", "--no-show-raw-insn"])?;
    let (mut ours, mut sse2, mut first) = (false, false, false);
    let mut patches: HashMap<u64, &[u8]> = HashMap::new();
    for l in asm.lines() {
        if l.ends_with(">:") {
            ours = l.contains("dcv_color_primitives");
            sse2 = ours && l.contains("13convert_image4sse2");
            first = true;
            continue;
        }
        let Some((a, rest)) = l.split_once(":\t") else { continue };
        let Ok(a) = u64::from_str_radix(a.trim(), 16) else { continue };
        let m = rest.split_whitespace().next().unwrap_or("");
        let p: &[u8] = if m == "cpuid" { &[0x0f, 0xff] } else if m == "xgetbv" { &[0x0f, 0xb9, 0xd0] }
            else if ours && m.starts_with('v') && !m.starts_with("ver") { &[0x0f, 0xb9, 0xc0] }
            else if sse2 && first { &[0x0f, 0xb9, 0xc1] } else { &[] };
        first = false;
        if !p.is_empty() { patches.insert(a, p); }
    }
    for (a, p) in patches {
        if a < vma || a + p.len() as u64 > vma + size { return Err("code outside of its section".into()); }
        let o = (a - vma + off) as usize;
        bytes[o..o + p.len()].copy_from_slice(p);
    }
    std::fs::write(to, bytes).map_err(|e| e.to_string())?;
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(to, std::fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
    Ok(to.to_path_buf())
}
