// A canister that serves assets, as the asset certification's documentation shows it.
use candid::{CandidType, Deserialize};
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetRedirectKind, AssetRouter};
use ic_cdk::{
    api::{data_certificate, set_certified_data},
    *,
};
use ic_http_certification::{HttpRequest, HttpResponse, StatusCode};
use std::cell::RefCell;

thread_local! {
    static ROUTER: RefCell<AssetRouter<'static>> = Default::default();
}

#[derive(CandidType, Deserialize)]
enum Config {
    File { path: String, content_type: Option<String>, headers: Vec<(String, String)>, fallback_for: Vec<(String, Option<u16>)>, aliased_by: Vec<String>, encodings: Vec<(String, String)> },
    Pattern { pattern: String, content_type: Option<String>, headers: Vec<(String, String)>, encodings: Vec<(String, String)> },
    Redirect { from: String, to: String, permanent: bool },
}
fn encodings(v: Vec<(String, String)>) -> Vec<(AssetEncoding, String)> {
    v.into_iter()
        .map(|(e, x)| {
            let e = match e.as_str() {
                "br" => AssetEncoding::Brotli,
                "zstd" => AssetEncoding::Zstd,
                "gzip" => AssetEncoding::Gzip,
                "deflate" => AssetEncoding::Deflate,
                _ => AssetEncoding::Identity,
            };
            (e, x)
        })
        .collect()
}
fn config(c: Config) -> AssetConfig {
    match c {
        Config::File { path, content_type, headers, fallback_for, aliased_by, encodings: e } => AssetConfig::File {
            path,
            content_type,
            headers,
            fallback_for: fallback_for.into_iter().map(|(scope, s)| AssetFallbackConfig { scope, status_code: s.map(|s| StatusCode::from_u16(s).unwrap()) }).collect(),
            aliased_by,
            encodings: encodings(e),
        },
        Config::Pattern { pattern, content_type, headers, encodings: e } => AssetConfig::Pattern { pattern, content_type, headers, encodings: encodings(e) },
        Config::Redirect { from, to, permanent } => AssetConfig::Redirect { from, to, kind: if permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary } },
    }
}
fn assets(a: Vec<(String, Vec<u8>)>) -> Vec<Asset<'static, 'static>> {
    a.into_iter().map(|(p, c)| Asset::new(p, c)).collect()
}

#[update]
fn certify(a: Vec<(String, Vec<u8>)>, c: Vec<Config>) {
    ROUTER.with_borrow_mut(|r| {
        r.certify_assets(assets(a), c.into_iter().map(config)).unwrap();
        set_certified_data(&r.root_hash());
    })
}
#[update]
fn delete(a: Vec<(String, Vec<u8>)>, c: Vec<Config>) {
    ROUTER.with_borrow_mut(|r| {
        r.delete_assets(assets(a), c.into_iter().map(config)).unwrap();
        set_certified_data(&r.root_hash());
    })
}
#[update]
fn delete_all() {
    ROUTER.with_borrow_mut(|r| {
        r.delete_all_assets();
        set_certified_data(&r.root_hash());
    })
}
#[query]
fn http_request(req: HttpRequest) -> HttpResponse<'static> {
    let certificate = data_certificate().expect("No data certificate available");
    ROUTER.with_borrow(|r| r.serve_asset(&certificate, &req).expect("Failed to serve asset"))
}
