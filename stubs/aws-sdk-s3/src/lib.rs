//! Environment stand-in for the S3 client.  An object's body is delivered as a sequence of
//! chunks chosen by whoever calls `set_object`; a missing object is an error.
use std::cell::RefCell;
thread_local! {
    static OBJECT: RefCell<Option<Vec<bytes::Bytes>>> = const { RefCell::new(None) };
}
/// Set the chunks the next `get_object` will deliver.
pub fn set_object(chunks: Vec<bytes::Bytes>) {
    OBJECT.with(|o| *o.borrow_mut() = Some(chunks));
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("s3 error")
    }
}
impl std::error::Error for Error {}
pub struct Client;
impl Client {
    pub fn new(_c: &aws_config::SdkConfig) -> Self {
        Self
    }
    pub fn get_object(&self) -> GetObject {
        GetObject
    }
}
pub struct GetObject;
impl GetObject {
    pub fn bucket(self, _b: impl Into<String>) -> Self {
        self
    }
    pub fn key(self, _b: impl Into<String>) -> Self {
        self
    }
    pub async fn send(self) -> Result<operation::get_object::GetObjectOutput, Error> {
        let o = OBJECT.with(|o| o.borrow_mut().take());
        match o {
            Some(v) => Ok(operation::get_object::GetObjectOutput {
                body: operation::get_object::Body { chunks: v, at: 0 },
            }),
            None => Err(Error),
        }
    }
}
pub mod operation {
    pub mod get_object {
        pub struct Body {
            pub chunks: Vec<bytes::Bytes>,
            pub at: usize,
        }
        impl Body {
            pub async fn try_next(&mut self) -> Result<Option<bytes::Bytes>, crate::Error> {
                if self.at < self.chunks.len() {
                    self.at += 1;
                    Ok(Some(self.chunks[self.at - 1].clone()))
                } else {
                    Ok(None)
                }
            }
        }
        pub struct GetObjectOutput {
            pub body: Body,
        }
    }
}
