R='internal/gen/cpp/embed/templates/ros/main.cpp.tmpl'
CASES=[
('C32','bug',(R,'const int TIMEOUT_SEC     = 15;','const int TIMEOUT_SEC     = 5;')),
('C32','bug',(R,'const int INPUT_DELAY_SEC = 3;','const int INPUT_DELAY_SEC = 0;')),
('C32','bug',(R,'ros::Duration(INPUT_DELAY_SEC)','ros::Duration(0, INPUT_DELAY_SEC)')),
('C32','bug',(R,'ros::Duration(TIMEOUT_SEC)','ros::Duration(TIMEOUT_SEC - INPUT_DELAY_SEC)')),
('C32','bug',(R,'ros::Duration(TIMEOUT_SEC)','ros::Duration(TIMEOUT_SEC{{ if .Transitions.HasIn }} - INPUT_DELAY_SEC{{ end }})')),
('C32','bug',(R,'const int TIMEOUT_SEC     = 15;\nconst int INPUT_DELAY_SEC = 3;','const int INPUT_DELAY_SEC = 15;\nconst int TIMEOUT_SEC     = 3;')),
('C32','bug',(R,'ros::Duration(INPUT_DELAY_SEC), &StateMachine::initialDelayCallback','ros::Duration(TIMEOUT_SEC), &StateMachine::initialDelayCallback')),
('C32','bug',(R,'auto timeout_timer = nh.createTimer(ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback, &stm);','nh.createTimer(ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback, &stm);')),
('C32','bug',('internal/gen/cpp/embed/templates/base/stm.cpp.tmpl','  if (!rtcg::status::isRunning(status_))\n    return;\n\n  {{ template "log" "info" }}"Timeout!"','  if (status_ == rtcg::Status::WAIT_START || !rtcg::status::isRunning(status_))\n    return;\n\n  {{ template "log" "info" }}"Timeout!"')),
('C32','ok',(R,'ros::Duration(TIMEOUT_SEC)','ros::Duration(static_cast<double>(TIMEOUT_SEC))')),
('C32','ok',(R,'ros::Duration(TIMEOUT_SEC)','ros::Duration(TIMEOUT_SEC, 0)')),
('C32','ok',(R,'const int TIMEOUT_SEC     = 15;\nconst int INPUT_DELAY_SEC = 3;','const double TIMEOUT_SEC     = 15.0;\nconstexpr int INPUT_DELAY_SEC = 3;')),
('C32','ok',(R,'&StateMachine::timeoutCallback, &stm);','&StateMachine::timeoutCallback, &stm, true);')),
]
