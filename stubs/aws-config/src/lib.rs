//! Environment stand-in for the aws-config crate (network code is outside every claim).
pub struct BehaviorVersion;
impl BehaviorVersion {
    pub fn latest() -> Self {
        Self
    }
}
pub struct SdkConfig;
pub async fn load_defaults(_v: BehaviorVersion) -> SdkConfig {
    SdkConfig
}
