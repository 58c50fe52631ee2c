#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, hidden_glob_reexports, non_snake_case)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::cmp::Ordering;
use vstd::float::*;
