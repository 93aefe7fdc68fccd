pub mod json_rpc;
