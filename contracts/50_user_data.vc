// User data chunks and property values.
@fn binary::chunks::user_data::parse_user_data_chunk
@props C01 C04 C08 ~C05
@p crate::spec_ud::p_user_data($0@)
@fn binary::chunks::user_data::parse_properties_maps
@props C01 C08
@p crate::spec_ud::p_maps($0@)
@sp crate::spec_ud::sp_maps()
@fn binary::chunks::user_data::parse_properties_map
@props C01 C08
@p crate::spec_ud::p_map_top($0@)
@sp crate::spec_ud::sp_map()
@fn binary::chunks::user_data::properties_at
@props C01 C08
@req $1 <= 64
@p crate::spec_ud::p_properties($1 as int, $0@)
@sp crate::spec_ud::sp_properties($1 as int)
@dec 64 - $1, 4int
@fn binary::chunks::user_data::nested_properties_map_at
@props C01 C08
@req $1 <= 64
@p crate::spec_ud::p_nested_map($1 as int, $0@)
@sp crate::spec_ud::sp_nested_map($1 as int)
@dec 64 - $1, 0int
@fn binary::chunks::user_data::parse_property
@props C01 C08
@p crate::spec_ud::p_property(0, $0@)
@sp crate::spec_ud::sp_property(0)
@fn binary::chunks::user_data::property_at
@props C01 C08
@req $1 <= 64
@p crate::spec_ud::p_property($1 as int, $0@)
@sp crate::spec_ud::sp_property($1 as int)
@dec 64 - $1, 3int
@fn binary::chunks::user_data::increase_depth
@props C01 C08
@ens $0 < 64 ==> vxr == Ok::<usize, nom::Err<ParseError<'a>>>((($0) + 1) as usize)
@ens $0 >= 64 ==> vxr is Err && vxr->Err_0 is Failure
@fn binary::chunks::user_data::parse_value
@props C01 C08
@p crate::spec_ud::p_value(0, $0@)
@sp crate::spec_ud::sp_value(0)
@fn binary::chunks::user_data::value_at
@props C01 C08
@req $1 <= 64
@p crate::spec_ud::p_value($1 as int, $0@)
@sp crate::spec_ud::sp_value($1 as int)
@dec 64 - $1, 2int
@closure |b|
@params b: u8
@ret Value<'_>
@cens vxq == Value::Bool(b != 0)
@wrap crate::vx::vx_g( $$ , Ghost(|b: u8| ValueV::Bool(b != 0)))
@fn binary::chunks::user_data::parse_vector
@props C01 C08
@p crate::spec_ud::p_vector(0, $0@)
@sp crate::spec_ud::sp_vector(0)
@fn binary::chunks::user_data::vector_at
@props C01 C08
@req $1 <= 64
@p crate::spec_ud::p_vector($1 as int, $0@)
@sp crate::spec_ud::sp_vector($1 as int)
@dec 64 - $1, 1int
@closure |b|
@params b: u8
@ret bool
@cens vxq == (b != 0)
@wrap crate::vx::vx_g( $$ , Ghost(|b: u8| b != 0))
@comb map(byte,
@wrap crate::vx::vx_q( $$ , Ghost(crate::spec::sp_bool()))
