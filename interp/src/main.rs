use std::io::{Read, Write};

/// Answers frames (a length and the frame) on standard input, until its end.
fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !interp::QUIET.with(|q| q.get()) {
            hook(info);
        }
    }));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut keys = None;
    loop {
        let mut n = [0; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut frame = vec![0; u32::from_le_bytes(n) as usize];
        i.read_exact(&mut frame).unwrap();
        let mut out = Vec::new();
        interp::answer(&frame, &mut keys, &mut |tag, s| {
            out.push(tag);
            out.extend((s.len() as u32).to_le_bytes());
            out.extend(s.as_bytes());
        });
        out.push(0);
        o.write_all(&out).unwrap();
        o.flush().unwrap();
    }
}
