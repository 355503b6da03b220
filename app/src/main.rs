mod build_ui_checks;
mod display_checks;
mod measure_checks;
mod ops;
mod probe_checks;
mod profile_checks;
mod service_checks;
mod site;
mod tui;
mod tui_checks;

fn main() {
    vcommon::main(|| {
        let mut props = vec![];
        props.extend(display_checks::props());
        props.extend(service_checks::props());
        props.extend(tui_checks::props());
        props.extend(build_ui_checks::props());
        props.extend(probe_checks::props());
        props.extend(profile_checks::props());
        props.extend(measure_checks::props());
        props
    })
}
