//@ include base.vx
//@ include reader.vx
//@ include vector.vx
//@ include writer.vx
//@ include builder.vx
//@ include builder2.vx
//@ include builder3.vx
//@ include props.vx
fn main() {}
}
