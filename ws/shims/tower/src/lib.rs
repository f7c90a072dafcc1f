//! The layer types of the `tower` crate. A layer does nothing here but be part of a type.
pub mod layer {
    pub mod util {
        #[derive(Clone, Debug, Default)]
        pub struct Identity;
        impl Identity {
            pub fn new() -> Self {
                Self
            }
        }
        #[derive(Clone, Debug)]
        pub struct Stack<Inner, Outer> {
            pub inner: Inner,
            pub outer: Outer,
        }
        /// What a layer stack says about who may call from a browser.
        pub trait Described {
            fn described(&self) -> Vec<String>;
        }
        impl Described for Identity {
            fn described(&self) -> Vec<String> {
                vec![]
            }
        }
        impl<I: Described, O: Described> Described for Stack<I, O> {
            fn described(&self) -> Vec<String> {
                [self.inner.described(), self.outer.described()].concat()
            }
        }
    }
}
use layer::util::{Identity, Stack};
#[derive(Clone, Debug)]
pub struct ServiceBuilder<L> {
    layer: L,
}
impl Default for ServiceBuilder<Identity> {
    fn default() -> Self {
        Self::new()
    }
}
impl ServiceBuilder<Identity> {
    pub fn new() -> Self {
        Self { layer: Identity }
    }
}
impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<Stack<T, L>> {
        ServiceBuilder { layer: Stack { inner: layer, outer: self.layer } }
    }
    #[doc(hidden)]
    pub fn into_layer(self) -> L {
        self.layer
    }
}
