pub use parsegen::parser;
