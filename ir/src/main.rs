//! ircheck list | ircheck run l|r NAME HEX : runs one function natively on the given bytes.
mod table;
use table::TABLE;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for t in TABLE {
            println!("{} {} {} {} {} {}", t.0, t.1, t.2, t.3, t.4, t.5);
        }
        return;
    }
    let t = TABLE.iter().find(|t| t.0 == a[3]).expect("name");
    let b: Vec<u8> = (0..a[4].len() / 2).map(|k| u8::from_str_radix(&a[4][2 * k..2 * k + 2], 16).unwrap()).collect();
    let mut i = vec![0u128; b.len() / 16 + 1];
    let fill = a.get(5).map_or(0u8, |x| x.parse().unwrap());
    let mut o = vec![u128::from_le_bytes([fill; 16]); 64];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), i.as_mut_ptr() as *mut u8, b.len());
        let f = if a[2] == "l" { t.6 } else { t.7 };
        let r = f(i.as_ptr() as *const u8, o.as_mut_ptr() as *mut u8);
        let n = t.4 * if t.3.ends_with("size") { 8 } else { t.3[1..].parse::<usize>().unwrap() / 8 };
        let p = o.as_ptr() as *const u8;
        println!("{} {}", r as u8, (0..n).map(|k| format!("{:02x}", *p.add(k))).collect::<String>());
    }
}
