// Image decoding.
@fn loader::decompress
@props C02 C10
@ens $r is Ok == (crate::vx::zlib_stream($0@) is Some && crate::vx::zlib_stream($0@)->Some_0.len() == old($1)@.len())
@ens $r is Ok ==> final($1)@ == crate::vx::zlib_stream($0@)->Some_0
@ens final($1)@.len() == old($1)@.len()
@fn loader::grayscale_to_rgba
@props C02 C10
@req old($1)@.len() % 4 == 0
@ens $r is Ok == (old($1)@.len() == $0@.len() * 2)
@ens $r is Ok ==> final($1)@ == crate::spec_image::gray_rgba($0@)
@ens final($1)@.len() == old($1)@.len()
@loop 0
@inv $1@.len() == old($1)@.len()
@inv forall |k: int| 0 <= k < 4 * $it.index() ==> #[trigger] $1@[k] == crate::spec_image::gray_at($0@, k)
@tail assert($1@ =~= crate::spec_image::gray_rgba($0@));
@fn loader::indexed_to_rgba
@props C02 C10
@ens $r is Ok == (old($2)@.len() == $0@.len() * 4)
@ens $r is Ok ==> final($2)@ == crate::spec_image::index_rgba($0@, $1.vw().colors)
@ens final($2)@.len() == old($2)@.len()
@loop 0
@inv $2@.len() == old($2)@.len()
@inv forall |k: int| 0 <= k < 4 * $it.index() ==> #[trigger] $2@[k] == crate::spec_image::index_at($0@, $1.vw().colors, k)
@tail assert($2@ =~= crate::spec_image::index_rgba($0@, $1.vw().colors));
@fn loader::AsepriteFile::load_image
@props C02 C10
@req $0 < self.images@.len()
@ens $r is Ok == (old($1)@.len() >= 4 * crate::spec_image::area(self.images@[$0 as int].width, self.images@[$0 as int].height) && crate::spec_image::image_rgba(self.file.header.color_depth, self.images@[$0 as int].vw(), self.file.palette.vw()) is Some)
@ens $r is Ok ==> crate::spec_image::overwritten(old($1)@, crate::spec_image::image_rgba(self.file.header.color_depth, self.images@[$0 as int].vw(), self.file.palette.vw())->Some_0, final($1)@)
@ens crate::spec_image::same_behind(old($1)@, 4 * crate::spec_image::area(self.images@[$0 as int].width, self.images@[$0 as int].height), final($1)@)
@entry broadcast use crate::spec_image::l_area; proof { crate::spec_image::l_area(self.images@[$0 as int].width, self.images@[$0 as int].height); }
