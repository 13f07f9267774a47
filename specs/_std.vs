@rw std::cmp::min(__a, __b) => crate::vx::vmin(__a, __b)
@rw std::cmp::max(__a, __b) => crate::vx::vmax(__a, __b)
@rw __a.min(__b) => crate::vx::vmin(__a, __b)
@rw __a.max(__b) => crate::vx::vmax(__a, __b)
@rw String::from_utf8_lossy(__a) => crate::vx::from_utf8_lossy(__a)
@rw rand::thread_rng() => crate::vx::thread_rng()
@rw __r.gen_range(__a..__b) => crate::vx::gen_range_u64(&mut __r, __a, __b)
@rw (&mut __f).take(__n).read_to_end(__b) => crate::vx::take_read_to_end(&mut __f, __n, __b)
@rw __f.by_ref().take(__n).read_to_end(__b) => crate::vx::take_read_to_end(&mut __f, __n, __b)
@rw std::fs::read(__a) => crate::vx::fs_read(__a)
@rw std::fs::metadata(__a) => crate::vx::fs_metadata(__a)
@rw __a as f64 => crate::vx::to_f64(__a)
@rw std::str::from_utf8(__a) => crate::vx::str_from_utf8(__a)
@rw __a.shrink_to_fit() => crate::vx::shrink_to_fit(&mut __a)
@rw serde_json::to_string(__v) => crate::vx::json_to_string(__v)
@rw std::fs::write(__p, __c) => crate::vx::fs_write(__p, __c)
@rw fs::write(__p, __c) => crate::vx::fs_write(__p, __c)
@rw fs::metadata(__p) => crate::vx::fs_metadata(__p)
@rw &__a[..] => crate::vx::whole_of(&__a)
