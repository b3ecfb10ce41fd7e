pub use pyo3_bindgen::*;
