// contracts shared by the properties about running a command
import C01 C09m C10d C11o

// the library: a new command has nothing configured
extern exec.CommandContext(ctx, name, arg) (c)
  ensures fresh(c) && c != nil && c.Env == nil && c.Dir == "" && c.Stdout == nil && c.Stderr == nil && c.Stdin == nil

func output.Cmd(cmd)
func output.RenderCmd(cmd) (s)
