// Blend functions.
@fn loader::blend::Color::r_i32
@props C12
@ens vxr == self.r as i32
@fn loader::blend::Color::g_i32
@props C12
@ens vxr == self.g as i32
@fn loader::blend::Color::b_i32
@props C12
@ens vxr == self.b as i32
@fn loader::blend::Color::a_i32
@props C12
@ens vxr == self.a as i32
@fn loader::blend::Color::r_f64
@props C13
@ens vxr == crate::spec_blend::unit(self.r)
@fn loader::blend::Color::g_f64
@props C13
@ens vxr == crate::spec_blend::unit(self.g)
@fn loader::blend::Color::b_f64
@props C13
@ens vxr == crate::spec_blend::unit(self.b)
@fn loader::blend::Color::a_f64
@props C13
@ens vxr == crate::spec_blend::unit(self.a)
@fn loader::blend::Color::new
@props C12
@ens vxr == (Color { r: $0, g: $1, b: $2, a: $3 })
@fn loader::blend::Color::from<&[u8]>
@props C02 C11
@req $0@.len() == 4
@ens $r == (Color { r: $0@[0], g: $0@[1], b: $0@[2], a: $0@[3] })
@fn loader::blend::Color::from<&[u8;4]>
@props C02 C11
@ens $r == (Color { r: $0@[0], g: $0@[1], b: $0@[2], a: $0@[3] })
@fn loader::blend::Color::from<&[i32]>
@props C02 C12
@req $0@.len() == 4 && forall |i: int| 0 <= i < 4 ==> 0 <= #[trigger] $0@[i] <= 255
@ens $r == (Color { r: $0@[0] as u8, g: $0@[1] as u8, b: $0@[2] as u8, a: $0@[3] as u8 })
@fn loader::blend::Color::from<&[i32;4]>
@props C02 C12
@req forall |i: int| 0 <= i < 4 ==> 0 <= #[trigger] $0@[i] <= 255
@ens $r == (Color { r: $0@[0] as u8, g: $0@[1] as u8, b: $0@[2] as u8, a: $0@[3] as u8 })
@fn loader::blend::Color::from<&[f64]>
@props C02 C13
@casts
@req $0@.len() == 4
@ens $r == crate::spec_blend::col(crate::spec_blend::to8($0@[0]), crate::spec_blend::to8($0@[1]), crate::spec_blend::to8($0@[2]), crate::spec_blend::to8($0@[3]))
@fn loader::blend::Color::from<&[f64;4]>
@props C02 C13
@ens $r == crate::spec_blend::col(crate::spec_blend::to8($0@[0]), crate::spec_blend::to8($0@[1]), crate::spec_blend::to8($0@[2]), crate::spec_blend::to8($0@[3]))

@fn loader::blend::mul8
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::mul8($0 as int, $1 as int)
@entry proof { crate::spec_blend::l_mul8($0 as int, $1 as int); }
@fn loader::blend::div8
@props C02 C12
@req 0 <= $0 <= $1 && 0 < $1 <= 255
@ens vxr == crate::spec_blend::div8($0 as int, $1 as int)
@entry proof { crate::spec_blend::l_div8($0 as int, $1 as int); }
@fn loader::blend::blend8
@props C02 C12
@ens vxr == crate::spec_blend::lerp8($0 as int, $1 as int, $2 as int)
@entry proof { crate::spec_blend::l_lerp8($0 as int, $1 as int, $2 as int); }
@fn loader::blend::normal
@props C02 C11 C12 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Normal, b, f, o)
@ens vxr == crate::spec_blend::s_normal($0, $1, $2)
@entry proof {
    crate::spec_blend::l_mul8($1.a as int, $2 as int);
    let fa = crate::spec_blend::mul8($1.a as int, $2 as int);
    crate::spec_blend::l_mul8($0.a as int, fa);
    let ra = fa + $0.a - crate::spec_blend::mul8($0.a as int, fa);
    if $0.a != 0 {
        crate::spec_blend::l_norm($0.r as int, $1.r as int, fa, ra);
        crate::spec_blend::l_norm($0.g as int, $1.g as int, fa, ra);
        crate::spec_blend::l_norm($0.b as int, $1.b as int, fa, ra);
    }
}
@fn loader::blend::merge
@props C11 C12 C13
@ens vxr == crate::spec_blend::s_merge($0, $1, $2)
@fn loader::blend::blender
@props C02 C12 C13
@req forall |xb: Color, xf: Color, xo: u8| #[trigger] call_requires($3, (xb, xf, xo))
@ens $0.a == 0 ==> vxr == crate::spec_blend::s_normal($0, $1, $2)
@ens $0.a != 0 ==> exists |bl: Color| #[trigger] call_ensures($3, ($0, $1, $2), bl) && vxr == crate::spec_blend::s_blender($0, $1, $2, bl)
@fn loader::blend::blend_channel
@props C02 C12
@req forall |b: i32, s: i32| 0 <= b <= 255 && 0 <= s <= 255 ==> #[trigger] call_requires($3, (b, s))
@ens exists |xr: u8, xg: u8, xb: u8| #[trigger] call_ensures($3, ($0.r as i32, $1.r as i32), xr) && #[trigger] call_ensures($3, ($0.g as i32, $1.g as i32), xg) && #[trigger] call_ensures($3, ($0.b as i32, $1.b as i32), xb) && vxr == crate::spec_blend::s_normal($0, Color { r: xr, g: xg, b: xb, a: $1.a }, $2)
@fn loader::blend::blend_multiply
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_multiply($0 as int, $1 as int)
@fn loader::blend::blend_screen
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_screen($0 as int, $1 as int)
@entry proof { crate::spec_blend::l_mul8($0 as int, $1 as int); }
@fn loader::blend::blend_hard_light
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_hard_light($0 as int, $1 as int)
@fn loader::blend::blend_overlay
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_overlay($0 as int, $1 as int)
@fn loader::blend::blend_darken
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_darken($0 as int, $1 as int)
@fn loader::blend::blend_lighten
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_lighten($0 as int, $1 as int)
@fn loader::blend::blend_color_dodge
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_dodge($0 as int, $1 as int)
@entry proof { if $0 != 0 && $0 < 255 - $1 { crate::spec_blend::l_div8($0 as int, 255 - $1); } }
@fn loader::blend::blend_color_burn
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_burn($0 as int, $1 as int)
@entry proof { if $0 != 255 && 255 - $0 < $1 { crate::spec_blend::l_div8(255 - $0, $1 as int); } }
@fn loader::blend::blend_difference
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_difference($0 as int, $1 as int)
@fn loader::blend::blend_exclusion
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_exclusion($0 as int, $1 as int)
@entry proof { crate::spec_blend::l_mul8($0 as int, $1 as int); crate::spec_blend::l_exclusion($0 as int, $1 as int); }
@fn loader::blend::blend_divide
@props C02 C12
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_divide($0 as int, $1 as int)
@fn loader::blend::blend_soft_light
@props C02 C13
@casts
@req 0 <= $0 <= 255 && 0 <= $1 <= 255
@ens vxr == crate::spec_blend::c_soft_light($0 as int, $1 as int)
@ens 0 <= vxr <= 255
@entry proof { crate::spec_blend::ax_soft_light($0 as int, $1 as int); }
@fn loader::blend::addition
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Addition, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Addition, $0, $1, $2)
@fn loader::blend::addition_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Addition, $0, $1, $2)
@fn loader::blend::subtract
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Subtract, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Subtract, $0, $1, $2)
@fn loader::blend::subtract_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Subtract, $0, $1, $2)
@fn loader::blend::exclusion
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Exclusion, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Exclusion, $0, $1, $2)
@fn loader::blend::exclusion_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Exclusion, $0, $1, $2)
@fn loader::blend::difference
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Difference, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Difference, $0, $1, $2)
@fn loader::blend::difference_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Difference, $0, $1, $2)
@fn loader::blend::divide
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Divide, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Divide, $0, $1, $2)
@fn loader::blend::divide_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Divide, $0, $1, $2)
@fn loader::blend::soft_light
@props C02 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::SoftLight, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::SoftLight, $0, $1, $2)
@fn loader::blend::soft_light_baseline
@props C02 C13
@ens vxr == crate::spec_blend::s_base(BlendMode::SoftLight, $0, $1, $2)
@fn loader::blend::hard_light
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::HardLight, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::HardLight, $0, $1, $2)
@fn loader::blend::hard_light_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::HardLight, $0, $1, $2)
@fn loader::blend::color_burn
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::ColorBurn, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::ColorBurn, $0, $1, $2)
@fn loader::blend::color_burn_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::ColorBurn, $0, $1, $2)
@fn loader::blend::color_dodge
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::ColorDodge, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::ColorDodge, $0, $1, $2)
@fn loader::blend::color_dodge_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::ColorDodge, $0, $1, $2)
@fn loader::blend::lighten
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Lighten, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Lighten, $0, $1, $2)
@fn loader::blend::lighten_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Lighten, $0, $1, $2)
@fn loader::blend::darken
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Darken, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Darken, $0, $1, $2)
@fn loader::blend::darken_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Darken, $0, $1, $2)
@fn loader::blend::overlay
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Overlay, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Overlay, $0, $1, $2)
@fn loader::blend::overlay_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Overlay, $0, $1, $2)
@fn loader::blend::screen
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Screen, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Screen, $0, $1, $2)
@fn loader::blend::screen_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Screen, $0, $1, $2)
@fn loader::blend::multiply
@props C02 C12
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Multiply, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Multiply, $0, $1, $2)
@fn loader::blend::multiply_baseline
@props C02 C12
@ens vxr == crate::spec_blend::s_base(BlendMode::Multiply, $0, $1, $2)
@fn loader::blend::hsl_hue
@props C02 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Hue, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Hue, $0, $1, $2)
@fn loader::blend::hsl_hue_baseline
@props C02 C13
@ens vxr == crate::spec_blend::s_base(BlendMode::Hue, $0, $1, $2)
@fn loader::blend::hsl_saturation
@props C02 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Saturation, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Saturation, $0, $1, $2)
@fn loader::blend::hsl_saturation_baseline
@props C02 C13
@ens vxr == crate::spec_blend::s_base(BlendMode::Saturation, $0, $1, $2)
@fn loader::blend::hsl_color
@props C02 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Color, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Color, $0, $1, $2)
@fn loader::blend::hsl_color_baseline
@props C02 C13
@ens vxr == crate::spec_blend::s_base(BlendMode::Color, $0, $1, $2)
@fn loader::blend::hsl_luminosity
@props C02 C13
@bfn |b: Color, f: Color, o: u8| crate::spec_blend::s_blend(BlendMode::Luminosity, b, f, o)
@ens vxr == crate::spec_blend::s_blend(BlendMode::Luminosity, $0, $1, $2)
@fn loader::blend::hsl_luminosity_baseline
@props C02 C13
@ens vxr == crate::spec_blend::s_base(BlendMode::Luminosity, $0, $1, $2)
@fn loader::blend::clip_color
@props C13
@ens vxr == crate::spec_blend::s_clip($0, $1, $2)
@fn loader::blend::set_luminocity
@props C13
@ens vxr == crate::spec_blend::s_set_lum($0, $1, $2, $3)
@fn loader::blend::saturation
@props C13
@ens vxr == crate::spec_blend::s_sat($0, $1, $2)
@fn loader::blend::luminosity
@props C13
@ens vxr == crate::spec_blend::s_lum($0, $1, $2)
@fn loader::blend::set_saturation
@props C02 C13
@req crate::vx::f_num($0) && crate::vx::f_num($1) && crate::vx::f_num($2)
@ens vxr == crate::spec_blend::s_set_sat($0, $1, $2, $3)
@fn loader::blend::static_sort3_orig
@props C13
@req crate::vx::f_num($0) && crate::vx::f_num($1) && crate::vx::f_num($2)
@ens (vxr.0 as int, vxr.1 as int, vxr.2 as int) == crate::spec_blend::s_sort($0, $1, $2)
@fn loader::blend::static_sort3
@props C13
@ens vxr.0 < 3 && vxr.1 < 3 && vxr.2 < 3
@fn loader::blend::blend_mode_to_blend_fn
@props C02 C11 C12 C13
@req !($0 is Unknown)
@ens forall |b: Color, f: Color, o: u8| #[trigger] (vxr.s())(b, f, o) == crate::spec_blend::s_blend($0, b, f, o)
