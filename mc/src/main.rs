mod engine;
mod driver;
mod model;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod sched;
mod dynde;

use driver::Property;

fn main() {
    let p = |id, scenarios, assumptions| Property {
        id, scenarios, assumptions, unprivileged: false
    };

    const CUSTOM: &str = "sources are custom ones that return given data, unless said otherwise";

    driver::main(&[
        p("C01", c01::scenarios, &[CUSTOM]),
        p("C02", c02::scenarios, &[CUSTOM]),
        p("C03", c03::scenarios, &[CUSTOM]),
        p("C04", c04::scenarios, &[CUSTOM]),
        p("C05", c05::scenarios, &[CUSTOM]),
        p("C06", c06::scenarios, &[CUSTOM]),
        p("C07", c07::scenarios, &[CUSTOM]),
        p("C08", c08::scenarios, &[CUSTOM]),
        p("C09", c09::scenarios, &[]),
        p("C10", c10::scenarios, &[]),
        p("C11", c11::scenarios, &[]),
        p("C12", c12::scenarios, &[]),
        p("C13", c13::scenarios, &[]),
        Property { unprivileged: true, ..p("C14", c14::scenarios, &[]) },
        p("C15", c15::scenarios, &[]),
        p("C16", c16::scenarios, &[]),
        p("C17", c17::scenarios, &[CUSTOM]),
        p("C18", c18::scenarios, &[CUSTOM]),
        p("C19", c19::scenarios, &[]),
        Property { unprivileged: true, ..p("C20", c20::scenarios, &[]) },
        Property { unprivileged: true, ..p("C21", c21::scenarios, &[]) },
        Property { unprivileged: true, ..p("C22", c22::scenarios, &[]) },
        p("C23", c23::scenarios, &[CUSTOM]),
        p("C24", c24::scenarios, &[]),
        p("C25", c25::scenarios, &[]),
        p("C26", c26::scenarios, &[]),
        p("C27", c27::scenarios, &[]),
        p("C28", c28::scenarios, &[]),
        p("C29", c29::scenarios, &[]),
        p("C30", c30::scenarios, &[]),
        p("C31", c31::scenarios, &[CUSTOM]),
    ]);
}
