//! C14: colors are read and written faithfully.
use layout::core::color::Color;
use sym::*;

// The CSS color names.
#[rustfmt::skip]
static NAMES: [(&str, u32); 148] = [
    ("aliceblue", 0xf0f8ff),
    ("antiquewhite", 0xfaebd7),
    ("aqua", 0x00ffff),
    ("aquamarine", 0x7fffd4),
    ("azure", 0xf0ffff),
    ("beige", 0xf5f5dc),
    ("bisque", 0xffe4c4),
    ("black", 0x000000),
    ("blanchedalmond", 0xffebcd),
    ("blue", 0x0000ff),
    ("blueviolet", 0x8a2be2),
    ("brown", 0xa52a2a),
    ("burlywood", 0xdeb887),
    ("cadetblue", 0x5f9ea0),
    ("chartreuse", 0x7fff00),
    ("chocolate", 0xd2691e),
    ("coral", 0xff7f50),
    ("cornflowerblue", 0x6495ed),
    ("cornsilk", 0xfff8dc),
    ("crimson", 0xdc143c),
    ("cyan", 0x00ffff),
    ("darkblue", 0x00008b),
    ("darkcyan", 0x008b8b),
    ("darkgoldenrod", 0xb8860b),
    ("darkgray", 0xa9a9a9),
    ("darkgreen", 0x006400),
    ("darkgrey", 0xa9a9a9),
    ("darkkhaki", 0xbdb76b),
    ("darkmagenta", 0x8b008b),
    ("darkolivegreen", 0x556b2f),
    ("darkorange", 0xff8c00),
    ("darkorchid", 0x9932cc),
    ("darkred", 0x8b0000),
    ("darksalmon", 0xe9967a),
    ("darkseagreen", 0x8fbc8f),
    ("darkslateblue", 0x483d8b),
    ("darkslategray", 0x2f4f4f),
    ("darkslategrey", 0x2f4f4f),
    ("darkturquoise", 0x00ced1),
    ("darkviolet", 0x9400d3),
    ("deeppink", 0xff1493),
    ("deepskyblue", 0x00bfff),
    ("dimgray", 0x696969),
    ("dimgrey", 0x696969),
    ("dodgerblue", 0x1e90ff),
    ("firebrick", 0xb22222),
    ("floralwhite", 0xfffaf0),
    ("forestgreen", 0x228b22),
    ("fuchsia", 0xff00ff),
    ("gainsboro", 0xdcdcdc),
    ("ghostwhite", 0xf8f8ff),
    ("gold", 0xffd700),
    ("goldenrod", 0xdaa520),
    ("gray", 0x808080),
    ("green", 0x008000),
    ("greenyellow", 0xadff2f),
    ("grey", 0x808080),
    ("honeydew", 0xf0fff0),
    ("hotpink", 0xff69b4),
    ("indianred", 0xcd5c5c),
    ("indigo", 0x4b0082),
    ("ivory", 0xfffff0),
    ("khaki", 0xf0e68c),
    ("lavender", 0xe6e6fa),
    ("lavenderblush", 0xfff0f5),
    ("lawngreen", 0x7cfc00),
    ("lemonchiffon", 0xfffacd),
    ("lightblue", 0xadd8e6),
    ("lightcoral", 0xf08080),
    ("lightcyan", 0xe0ffff),
    ("lightgoldenrodyellow", 0xfafad2),
    ("lightgray", 0xd3d3d3),
    ("lightgreen", 0x90ee90),
    ("lightgrey", 0xd3d3d3),
    ("lightpink", 0xffb6c1),
    ("lightsalmon", 0xffa07a),
    ("lightseagreen", 0x20b2aa),
    ("lightskyblue", 0x87cefa),
    ("lightslategray", 0x778899),
    ("lightslategrey", 0x778899),
    ("lightsteelblue", 0xb0c4de),
    ("lightyellow", 0xffffe0),
    ("lime", 0x00ff00),
    ("limegreen", 0x32cd32),
    ("linen", 0xfaf0e6),
    ("magenta", 0xff00ff),
    ("maroon", 0x800000),
    ("mediumaquamarine", 0x66cdaa),
    ("mediumblue", 0x0000cd),
    ("mediumorchid", 0xba55d3),
    ("mediumpurple", 0x9370db),
    ("mediumseagreen", 0x3cb371),
    ("mediumslateblue", 0x7b68ee),
    ("mediumspringgreen", 0x00fa9a),
    ("mediumturquoise", 0x48d1cc),
    ("mediumvioletred", 0xc71585),
    ("midnightblue", 0x191970),
    ("mintcream", 0xf5fffa),
    ("mistyrose", 0xffe4e1),
    ("moccasin", 0xffe4b5),
    ("navajowhite", 0xffdead),
    ("navy", 0x000080),
    ("oldlace", 0xfdf5e6),
    ("olive", 0x808000),
    ("olivedrab", 0x6b8e23),
    ("orange", 0xffa500),
    ("orangered", 0xff4500),
    ("orchid", 0xda70d6),
    ("palegoldenrod", 0xeee8aa),
    ("palegreen", 0x98fb98),
    ("paleturquoise", 0xafeeee),
    ("palevioletred", 0xdb7093),
    ("papayawhip", 0xffefd5),
    ("peachpuff", 0xffdab9),
    ("peru", 0xcd853f),
    ("pink", 0xffc0cb),
    ("plum", 0xdda0dd),
    ("powderblue", 0xb0e0e6),
    ("purple", 0x800080),
    ("rebeccapurple", 0x663399),
    ("red", 0xff0000),
    ("rosybrown", 0xbc8f8f),
    ("royalblue", 0x4169e1),
    ("saddlebrown", 0x8b4513),
    ("salmon", 0xfa8072),
    ("sandybrown", 0xf4a460),
    ("seagreen", 0x2e8b57),
    ("seashell", 0xfff5ee),
    ("sienna", 0xa0522d),
    ("silver", 0xc0c0c0),
    ("skyblue", 0x87ceeb),
    ("slateblue", 0x6a5acd),
    ("slategray", 0x708090),
    ("slategrey", 0x708090),
    ("snow", 0xfffafa),
    ("springgreen", 0x00ff7f),
    ("steelblue", 0x4682b4),
    ("tan", 0xd2b48c),
    ("teal", 0x008080),
    ("thistle", 0xd8bfd8),
    ("tomato", 0xff6347),
    ("turquoise", 0x40e0d0),
    ("violet", 0xee82ee),
    ("wheat", 0xf5deb3),
    ("white", 0xffffff),
    ("whitesmoke", 0xf5f5f5),
    ("yellow", 0xffff00),
    ("yellowgreen", 0x9acd32),
];

fn hex(v: u32) -> String {
    let mut s = String::from("#");
    for i in (0..8).rev() {
        let d = ((v >> (4 * i)) & 15) as u8;
        s.push((if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char);
    }
    s
}
fn same(c: &Color, v: u32, id: u64) {
    let (a, b) = (c.to_web_color(), hex(v));
    if verbose() {
        println!("written {} expected {}", a, b);
    }
    check(a == b, id);
}
/// Symbolic hexadecimal digits in either case, and their value.
fn digits(n: usize) -> (String, u32) {
    let mut s = String::from("#");
    let mut v = 0u32;
    for _ in 0..n {
        let d = int(0, 21) as u32; // 0-9 a-f A-F
        let (low, up) = ((d > 9) as u32 & (d < 16) as u32, (d > 15) as u32);
        let (ch, x) = (48 + d + 39 * low + up, d - 6 * up);
        s.push(ch as u8 as char);
        v = v * 16 + x;
    }
    (s, v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hex6() {
    let (s, v) = digits(6);
    if verbose() {
        println!("{:?}", s);
    }
    let c = Color::from_name(&s);
    check(c.is_some(), 1);
    same(&c.unwrap(), v * 256 + 255, 2);
    same(&Color::fast(&s), v * 256 + 255, 2);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn hex8() {
    let (s, v) = digits(8);
    let c = Color::from_name(&s);
    check(c.is_some(), 1);
    same(&c.unwrap(), v, 2);
    same(&Color::fast(&s), v, 2);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn round() {
    let v = int(0, u32::MAX as u64) as u32;
    let c = Color::new(v);
    same(&c, v, 3);
    let s = c.to_web_color();
    let d = Color::from_name(&s);
    check(d.is_some(), 4);
    same(&d.unwrap(), v, 4);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn names() {
    let i = pick(0, 147) as usize;
    let c = Color::from_name(NAMES[i].0);
    check(c.is_some(), 1);
    same(&c.unwrap(), (NAMES[i].1 << 8) + 255, 2);
    same(&Color::fast(NAMES[i].0), (NAMES[i].1 << 8) + 255, 2);
    reach(1);
}
/// Any text: a name, or not a color.
fn other(s: &str) {
    if verbose() {
        println!("{:?}", s);
    }
    let mut known = None;
    for (n, v) in NAMES.iter() {
        if *n == s {
            known = Some(*v);
        }
    }
    let c = Color::from_name(s);
    match known {
        Some(v) => {
            reach(1);
            check(c.is_some(), 1);
            same(&c.unwrap(), (v << 8) + 255, 2);
            same(&Color::fast(s), (v << 8) + 255, 2);
        }
        None => {
            if s.as_bytes().first() == Some(&b'#') {
                // other forms of numbers are not specified, but must not crash
                Color::fast(s);
                return;
            }
            reach(2);
            check(c.is_none(), 5);
            same(&Color::fast(s), 255, 6);
        }
    }
}
fn any() -> String {
    let n = pick(0, 9) as usize;
    ascii(n, 0, 127)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn text9() {
    other(&any())
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn long20() {
    let n = pick(10, 20) as usize;
    other(&ascii(n, 97, 122))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn uni3() {
    other(&text(3))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sharp() {
    let n = pick(0, 9) as usize;
    let mut s = String::from("#");
    s.push_str(&ascii(n, 0, 127));
    // six or eight digits are colors, a text without a digit is not
    let ok = s[1..].bytes().all(|b| b.is_ascii_hexdigit());
    let c = Color::from_name(&s);
    if ok && (n == 6 || n == 8) {
        check(c.is_some(), 1);
        reach(1);
    }
    // other numbers of digits, repeated number signs and plus signs are not specified
    let odd = s.bytes().any(|b| !b.is_ascii_hexdigit() && b != b'#' && b != b'+');
    if odd || !s.bytes().any(|b| b.is_ascii_hexdigit()) {
        check(c.is_none(), 5);
        same(&Color::fast(&s), 255, 6);
        reach(2);
    }
    observe(c.is_some() as u64);
}
entries!(hex6, hex8, round, names, text9, long20, uni3, sharp);
