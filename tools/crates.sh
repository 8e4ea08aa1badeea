# which harness crate decides which property
crate_of() {
    case "$1" in
        C0[1-9]|C1[0-9]|C2[0-6]|C29) echo chain ;;
        C27|C28|C35) echo sdk ;;
        C30|C31|C32) echo oracle ;;
        C33) echo macro ;;
        C34) echo cli ;;
        *) return 1 ;;
    esac
}
# what to build for a harness crate, in order
builds() {
    case "$1" in
        sdk) echo flavours/default flavours/anchor flavours/bc flavours/anchorbc sdk ;;
        oracle) echo bin:vrf-oracle oracle ;;
        cli) echo bin:vrf-cli cli ;;
        macro) echo macro/base_modern macro/base_compat macro ;;
        *) echo "$1" ;;
    esac
}
crates() { echo chain sdk oracle cli macro; }
# bin:NAME is a binary of /repo's workspace, anything else a crate under h/
build() {
    case "$1" in
        bin:*)
            cargo build --offline --locked --manifest-path /repo/Cargo.toml -p "${1#bin:}" \
                --config 'profile.dev.opt-level=1' --config 'profile.dev.debug="line-tables-only"' \
                --config 'profile.dev.package."*".opt-level=2' --config 'profile.dev.package."*".debug=false' ;;
        oracle)
            # the in-process part needs the internal functions of the service as they are called today
            cargo build --offline --manifest-path h/oracle/Cargo.toml --features wb ||
                cargo build --offline --manifest-path h/oracle/Cargo.toml ;;
        *) cargo build --offline --manifest-path "h/$1/Cargo.toml" ;;
    esac
}
