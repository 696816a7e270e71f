// Copyright 2024 Ryan McKenzie
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//    http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

use bumpalo::{
    collections::Vec as BumpVec,
    Bump,
};
use std::mem;

#[must_use]
pub(crate) fn allocate<T>(allocator: &Bump, val: T) -> &mut T {
    debug_assert!(!mem::needs_drop::<T>());
    allocator.alloc(val)
}

#[must_use]
pub(crate) fn allocate_slice<'alloc, T>(allocator: &'alloc Bump, src: &[T]) -> &'alloc [T]
where
    T: Copy,
{
    debug_assert!(!mem::needs_drop::<T>());
    allocator.alloc_slice_copy(src)
}

#[must_use]
pub(crate) fn new_vec<T>(allocator: &Bump) -> BumpVec<'_, T> {
    debug_assert!(!mem::needs_drop::<T>());
    BumpVec::new_in(allocator)
}
