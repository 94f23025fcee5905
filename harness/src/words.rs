//! C18: the public word operations against a plain arithmetic reading of their documentation.
use hmon::cx::*;
use hmon::support::*;

#[path = "wordops.rs"]
mod ops;
use ops::*;

pub fn words(cx: &mut Cx) -> Res {
    let c = cx.case;
    let mut rng = cx.rng.clone();
    if c < 16 {
        // all pairs of 8-bit words, and all 16-bit words against all single bits
        cx.note(|| format!("u8 pairs and u16 words, block {} of 16", c));
        let (n, last) = cx.target("a word operation", || -> Result<(u64, String), String> {
            mask8()?; let mut n = 0;
            for a in (c as u32 * 16)..(c as u32 * 16 + 16) { for b in 0..256u32 { n += w8::pair(a as u8, b as u8)?; n += w8::single(a as u8, b as usize)?; } }
            for a in (c as u32 * 4096)..(c as u32 * 4096 + 4096) { for b in 0..16 { n += w16::pair(a as u16, 1 << b)?; } n += w16::single(a as u16, (a % 40) as usize)?; }
            Ok((n, format!("u8 all pairs with a in {}..{}", c * 16, c * 16 + 16)))
        })?.map_err(Stop::Viol)?;
        cx.rep.evals += n; cx.add("exhaustive_u8_pairs", 16 * 256); for i in 0..(16 * 256) { cx.sig(mix3(8, c, i)); }
        if c == 0 { cx.rep.samples.push(last); }
        return Ok(());
    }
    let t = c % 5;
    cx.note(|| format!("random words of type #{}", t));
    let (n, sigs, sample) = cx.target("a word operation", || match t { 0 => w16::many(&mut rng, 200), 1 => w32::many(&mut rng, 200), 2 => w64::many(&mut rng, 200), 3 => w128::many(&mut rng, 200), _ => wsz::many(&mut rng, 200) })?.map_err(Stop::Viol)?;
    cx.rep.evals += n; for s in sigs { cx.sig(s); }
    cx.count(["type:u16", "type:u32", "type:u64", "type:u128", "type:usize"][t as usize]);
    if cx.rep.samples.len() < 3 { cx.rep.samples.push(sample); }
    Ok(())
}
