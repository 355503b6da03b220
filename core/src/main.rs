mod asylum_checks;
mod build_checks;
mod cpp_checks;
mod report_checks;
mod trace_checks;

fn main() {
    vcommon::main(|| {
        let mut props = vec![];
        props.extend(asylum_checks::props());
        props.extend(cpp_checks::props());
        props.extend(trace_checks::props());
        props.extend(report_checks::props());
        props.extend(build_checks::props());
        props
    })
}
